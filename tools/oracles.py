O={
"C01":"reference RFC 4648 encoder and a whole-text decoder; sizes against enc_size/dec_size of each call",
"C02":"the bytes themselves; mock source and sink that transfer any part and fail at any call",
"C03":"definition-level digits; a decoder over the whole text",
"H01":"independent bit-level CRC-32, MD5 and SHA-1 over the padded message; equality of the terms for the one-call and the cut computation",
"M01":"128-bit arithmetic","M02":"byte-wise reversal","M03":"set of integers; linear scan of the mapping table",
"Q01":"an ideal sequence (array with begin and size) stepped beside the queue, elements with construction counts",
"R01":"ghost counters of published and consumed bytes, content of each byte a function of its index; deadlock detection","R02":"outcome of each wait against the quit flag and the bytes published","P01":"holder count per resource, destruction count","L01":"ghost owner; plain variable written inside (race detection gives visibility)","W01":"ghost deadline on the model clock",
"S01":"ideal array with a cursor stepped beside the file","S02":"the same operations on an ideal file without cache; contents and cursors compared after each and after flush","S03":"bytes handed in against bytes that arrived","S04":"allowance counters","S05":"ideal file holding the region only","S06":"ideal queue of bytes","S07":"every target's bytes against the written ones, failing targets at any call","S08":"stream of bytes over all schedules of the worker thread","S09":"N ideal files","S10":"value written = value read; truncation at every byte","S11":"source bytes; position of the source afterwards","S12":"a fake operating system (read/write/lseek/… replaced) that transfers any part and fails with any error at any call","S13":"definition of the byte-order marks; ideal text",
"T01":"lexicographic order over unsigned units up to terminator or limit; antisymmetry, transitivity","T02":"destination bytes beside the copied ones unchanged; exact block sizes","T03":"definition-level search","T04":"128-bit value of the digits, saturated","T05":"definition-level trimming, folding and CRLF conversion","T06":"definition of UTF-16; independent class of glyph parts",
"G01":"longest-entity reading of the text with the library's own table as data","G02":"decode(encode(x)) = x; buffer against string form","H02":"unescape(escape(x)) = x; definition-level unescapers",
"U01":"sprintf-free formatting of each digit; grammar of the text form",
"E02":"a comparison of names written independently; stubs that record what was asked",
"Y01":"an invertible toy code in place of zlib, under zlib's documented contract; the data itself",
"F01":"the text composed by the harness itself, behind what was there before; a calendar for the day of the year",
"D02":"a model that knows the pieces a document was composed of and their meaning (open elements, ignored and included sections, raw content); the source itself for rebuilding; lists stepped beside the stacks",
"X01":"contract: success gives start ≤ end within the limit, failure an empty region, earlier use leaves nothing; memory is exactly the text","X02":"value computed digit by digit; a reader of the grammar","X03":"definition-level readers of IPv4/IPv6/DNS/URL","X04":"ISO 7064 mod 97 over the digits; SI check digit by definition","X05":"definition-level HTTP readers written from the grammar","X06":"decoder of JSON/CSS strings; every surrogate pair","X07":"mock parts with arbitrary behaviour: outcome of the combinator against the definition over those outcomes","X08":"calendar of month lengths; field order","X09":"definition-level tag reader",
"I01":"ideal list of records with sizes; truncation at every byte","V01":"what was written; malformed files by a single arbitrary change of any field","D01":"round trip, consecutive days (next day follows in the calendar), and fixed anchors: together they determine the conversion; the direction from number to date follows from round trip",
"Z01":"every byte of a block given back is asked to be zero (decided when it is freed, on code compiled for release); ledgers of handles and pointers","K01":"independent base64 encoder; the decoded fields","N01":"a conversion engine with a shifted mode, growth, invalid and incomplete units in place of iconv","E01":"the library's own table read in both directions; tags with letter case, separator or one unit changed","O01":"recording hosts; sums of the workers; product form of the proportion",
"B01":"",
}
