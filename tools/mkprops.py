#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qt,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=["include/stdex/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech])))
I=["inputs"];IH=["inputs","histories"];IS=["inputs","schedules"]

p("C01","Base64 codec is lossless, chunk-independent and stays inside its size bounds",
  "Base64-encoding any byte string and decoding the result returns exactly the original bytes, and the encoded text is the one RFC 4648 prescribes. The result does not depend on how the data is split into successive encode or decode calls, and no call produces more output than the size announced for it. Decoding arbitrary text skips characters outside the alphabet, stops at the padding, and never fails or touches memory outside its input and state.",
  IH,"every byte string up to the bound, every way of cutting it into calls, every text fed to the decoder","No test exercises base64 at all.",
  ["base64.hpp"],[("encoder","base64_enc::encode"),("decoder","base64_dec::decode")])
p("C02","Base64 stream adapters deliver the exact bytes whatever the I/O granularity",
  "Bytes written through the Base64 writing adapter and read back through the Base64 reading adapter are the original bytes, for every split of the data into write and read calls. Every read reports the number of bytes it actually delivered, and reports end of data only after the last byte was delivered; when the target fails, a write reports how many input bytes were consumed.",
  ["inputs","histories","fault_sequences"],"every content up to the bound, every sequence of read/write sizes, sink failing after any number of bytes","No test exercises the adapters.",
  ["base64.hpp","stream.hpp"],[("reader","base64_reader::read"),("writer","base64_writer::write/close")])
p("C03","Hexadecimal codec is lossless, chunk-independent and case-insensitive on input",
  "Hex-encoding any byte string yields two upper-case digits per byte, most significant first; decoding it (in either letter case) returns the original bytes, regardless of how the text is split over decode calls. Characters that are not hexadecimal digits are skipped by the decoder; it reports a block complete when its text ends with the second digit of a byte and never while a half-decoded byte is pending.",
  IH,"every byte string and every text up to the bound, every chunking","No test exercises hex.",
  ["hex.hpp"],[("encoder","hex_enc::encode"),("decoder","hex_dec::decode")])
p("H01","Digests depend only on the message and equal the published algorithms",
  "For CRC-32, MD5 and SHA-1, the digest of a message is the value the published algorithm defines, and it is the same however the message is cut into successive hashing calls, including empty ones. Re-initialising a hasher discards everything hashed before. A hashing stream adapter forwards the data unchanged and accumulates exactly the bytes that passed through it.",
  IH,"message lengths across every padding boundary of two blocks, every two-way split, every value of a byte at any position","The tests hash two fixed strings in one call.",
  ["hash.hpp","stream.hpp"],[("block buffering","block_hash::hash/finalize"),("crc","crc32_hash::hash"),("adapter","stream_hasher")])
p("M01","Size arithmetic either yields the exact result or reports overflow",
  "Adding or multiplying two sizes returns the mathematically exact result when it is representable and raises the overflow error otherwise; it never returns a wrapped value. The multiply-then-divide helper equals the exact quotient whenever the product is representable, and the rotation helper is a bijection undone by the complementary rotation.",
  I,"every pair/triple of argument values of the full machine width (division: stated reduced widths)","The tests use a handful of constants.",
  ["math.hpp","hash.hpp"],[("add/mul","stdex::add, stdex::mul"),("muldiv","stdex::muldiv"),("rol","stdex::rol")])
p("M02","Byte-order conversions are exact involutions",
  "Reversing the byte order of a value of any supported width reverses its bytes exactly, and doing it twice gives back the value. Converting host order to big endian and back is the identity and puts the most significant byte first in memory; little-endian conversion puts the least significant byte first; in-place and value-returning forms agree.",
  I,"every value of every supported integer and floating-point width","No test.",
  ["endian.hpp"],[("byteswap","stdex::byteswap"),("HE2BE family","HE2BE/BE2HE/LE2HE/HE2LE")])
p("M03","Interval algebra and position mappings are consistent",
  "Interval containment, emptiness, size and shifting agree with the set of integers they denote. For a piecewise mapping between two coordinate systems, translating a position in one direction follows the last entry at or before it, the variant that searches from a hint always agrees with the plain one, and translating forth and back returns the original position wherever the mapping is strictly monotonic.",
  IH,"every interval, every mapping table up to the bound, every position and hint","Only one fixed mapping table is produced by the tests; look-ups are never tested.",
  ["interval.hpp","mapping.hpp"],[("interval","stdex::interval"),("mapping","mapping_vector::from2to/to2from")])
p("Q01","The bounded queue keeps order, capacity and every retained element",
  "After any history of pushes and pops at either end, index and iterator access, copies, moves and clears, the bounded queue holds exactly the sequence an ideal double-ended queue of that capacity would hold, where pushing to a full queue drops the element at the opposite end. Positions returned by pushes and reached by iteration designate the right elements, size, empty and capacity are truthful, and no element is lost, duplicated or leaked.",
  ["inputs","histories","configurations"],"every operation history up to the bound, capacities 1..N including ones that are not powers of two","No test exercises the queue.",
  ["vector_queue.hpp"],[("storage","vector_queue::push_back/push_front/pop_*"),("index arithmetic","vector_queue::abs")])
p("R01","The ring buffer passes every byte once, in order, under every schedule",
  "With one producer and one consumer thread, the consumer receives exactly the bytes the producer published, in the same order, whatever the interleaving and however many bytes each step fills or takes. Space offered to the producer never overlaps bytes not yet consumed, data offered to the consumer is never bytes not yet published, and neither side waits forever while the other can still act.",
  ["schedules","histories","inputs"],"every interleaving (bounded preemptions) and every chunk size per step within the bound","The test runs one random schedule per run.",
  ["ring.hpp"],[("synchronisation","ring::back/push/front/pop/sync")])
p("R02","Ending a ring buffer always releases the threads waiting on it",
  "Once the ring buffer is told to quit, a consumer can still take everything published before and is then told there is no more, and any thread waiting for data or for space, or that starts waiting later, is released and told there will be none. Waiting until everything is consumed ends when the buffer is drained or quit.",
  ["schedules","histories"],"every interleaving of the quit with waits on both sides","The tests never quit with a blocked party.",
  ["ring.hpp"],[("quit","ring::quit"),("waits","ring::front/back/sync")])
p("P01","A pooled resource is never handed to two holders and is recycled",
  "Across any interleaving of threads taking resources from a pool and returning them, no resource is held by two holders at a time, a returned resource is handed out again, and taking from an empty pool yields nothing. When the pool is destroyed every resource still in it is destroyed exactly once, and one handed out is destroyed by its holder only.",
  ["schedules","histories"],"every interleaving of up to the bound of takes/returns and every history of one thread","The test observes one native schedule.",
  ["pool.hpp"],[("pool","pool::pop/push/clear")])
p("L01","The spin lock provides mutual exclusion and never wedges",
  "At most one thread is between acquiring and releasing the spin lock at any time, a non-blocking attempt succeeds exactly when nobody holds it, and what one holder wrote is visible to the next. A thread that keeps trying acquires the lock once it is released.",
  ["schedules"],"every interleaving of two and three threads within the bound","No test.",
  ["spinlock.hpp"],[("lock","spinlock::lock/try_lock/unlock")])
p("W01","The watchdog fires only on a missed deadline, and only once per miss",
  "The watchdog invokes its callback when and only when a full timeout elapsed without a feed and without its being stopped; destroying it always stops its thread. A feed that happens before the deadline postpones the callback, under every interleaving of feeder, watchdog thread and clock.",
  ["schedules","histories"],"every interleaving of feeds, time-outs (nondeterministic), and destruction within the bound","The test sleeps fixed times.",
  ["watchdog.hpp"],[("timer loop","watchdog::run"),("feed","watchdog::reset/phase")])
p("S01","A memory file behaves as a growable byte array with a cursor",
  "After any history of reads, writes, seeks, skips and truncations, a memory file's contents, size, position and the result and state reported by each operation are those of an ideal byte array with a cursor; growing never loses or exposes bytes, and truncating to the cursor cuts exactly there. Typed and bulk accessors observe the same bytes, and no operation touches memory outside the data.",
  IH,"every operation history up to the bound with symbolic data, sizes and positions, reserved sizes and block sizes","Tests open, write and read one file linearly.",
  ["stream.hpp"],[("memory file","memory_file::read/write/seek/truncate/reserve")])
p("S02","A read/write cache is indistinguishable from the file behind it",
  "Any history of reads, writes, seeks, truncations and flushes through the block cache returns the same data, sizes, positions and outcomes as performing it directly on the underlying file, and after a flush or close the underlying file holds exactly the same bytes. No byte is written that the user did not write, except zero fill created by writing past the end.",
  IH,"every operation history up to the bound, cache blocks of a few bytes, symbolic data","The test copies one file linearly through the cache.",
  ["stream.hpp"],[("cache","cache::read/write/flush/load_cache/invalidate_cache")])
p("S03","Read and write buffering never changes the byte stream",
  "Reading through a buffered stream yields exactly the source's bytes in order, and writing through it delivers exactly the written bytes in order to the target once flushed or closed, for every combination of buffer size, request sizes and short or failing transfers of the underlying stream. The count and state each call reports match the bytes really accepted or delivered.",
  ["inputs","histories","fault_sequences"],"every content, buffer size 0..N, request sizes, short reads and writes","Not covered by tests.",
  ["stream.hpp"],[("buffer","buffer::read/write/flush_write")])
p("S04","Limited and windowed streams never go outside their allowance",
  "A length-limited stream passes through exactly the first bytes up to its read and write limits, reports end or failure when they are exhausted, and never consumes or writes a byte beyond; the limit left is always exact, and skipping counts against it like reading does. A windowed stream delivers exactly the bytes of its source that lie inside its read window, and passes on exactly those written bytes that lie inside its write window: bytes before and after the window are skipped, never delivered and never passed on.",
  IH,"every limit, offset, request-size sequence and content within the bound","Not covered by tests directly.",
  ["stream.hpp"],[("limiter","limiter::read/write/skip"),("window","window::read/write")])
p("S05","A file window confines every operation to its region of the file",
  "Through a window onto part of a file, positions are relative to the window's start, reads and writes affect only bytes inside the window, reading stops at its end, and seek and tell are inverse of each other. Size reports the window's size and the bytes outside the window never change.",
  IH,"every window placement, operation history and content within the bound","Not covered by tests.",
  ["stream.hpp"],[("file window","file_window::seek/read/write/skip/tell/size")])
p("S06","The in-memory FIFO returns every byte exactly once in order",
  "Bytes written to the in-memory FIFO come out in the same order, exactly once, for every interleaving of write and read sizes; its size is always the number of bytes not yet read, and a read of an empty FIFO reports the end. All its memory is returned the way it was obtained.",
  IH,"every history of writes/reads up to the bound","Not covered by tests.",
  ["stream.hpp"],[("fifo","fifo::read/write/head")])
p("S07","The replicator delivers the same complete byte stream to every target",
  "Every target attached to a replicator receives exactly the bytes written to it from the time it was attached until it is removed or the replicator is closed, in order and without gaps, under every interleaving of the worker threads. If a target fails, the writer is told, and the other targets still receive the data.",
  ["inputs","schedules","fault_sequences"],"every interleaving within the bound of a writer and the workers, target failing at any point","The test runs one native schedule without faults.",
  ["stream.hpp","ring.hpp"],[("replicator","replicator::write/flush/worker")])
p("S08","Asynchronous readers and writers transfer the exact byte stream",
  "Data read through the asynchronous reader is exactly the source's bytes in order up to its end, and data written through the asynchronous writer reaches the target exactly and in order once it is flushed or closed, under every interleaving with the background thread. Closing or destroying at any moment, and source or target failure, terminates without a hang and is reported in the state.",
  ["inputs","schedules","fault_sequences"],"every interleaving within the bound, failures at any byte","The test runs one native schedule without faults.",
  ["stream.hpp","ring.hpp"],[("async reader","async_reader"),("async writer","async_writer")])
p("S09","The comparing file applies operations to all files and exposes any divergence",
  "The diagnostic file that mirrors operations on several files forwards each operation to all of them, returns the first file's result, and flags a failure exactly when the files' data, counts, positions, sizes or states differ. It works for any number of files, including none.",
  IH,"every history up to the bound over files that differ in any byte or size","Not covered by tests.",
  ["stream.hpp"],[("diag_file","diag_file::read/write/seek/...")])
p("S10","Typed serialisation round-trips every value and fails cleanly on truncation",
  "Every scalar, string, container, pair-like value or array written to a stream with the typed operators is read back equal with the matching operators, in the documented (little-endian) byte order, leaving the stream positioned right after it. Reading from a truncated or failed stream reports a non-ok state, never a made-up value as success, and operators can be chained.",
  IH,"every value (symbolic contents, lengths up to the bound), truncation at any byte","Only a few linear writes in tests.",
  ["stream.hpp"],[("typed I/O","basic::operator<< / operator>>, read_data/write_data, read_str/write_str, read_array/write_array")])
p("S11","Bulk stream copies, line reads and remainder reads lose nothing",
  "Copying from one stream to another (all or a given amount), skipping, reading the remainder, reading lines and matching or scanning helpers transfer exactly the intended bytes, independent of internal block sizes and short transfers, report how many were moved, and leave both streams right after the last byte moved. Line reading splits only at line ends, drops nothing but the terminators, and reports the end only when no data is left.",
  ["inputs","histories","fault_sequences"],"every content up to the bound, any amount, short reads and writes at any point","Only file copy of one linear file.",
  ["stream.hpp"],[("bulk","basic::write_stream, read_remainder, skip, readln, copy")])
p("S12","OS file and socket streams survive partial transfers without loss",
  "Reads and writes over an operating-system handle or socket transfer the data exactly although each system call may move only part of it, and never hang when the peer accepts nothing. Errors and end of file are reflected in the returned count and state; the handle is owned by exactly one object, closed exactly once, and moving transfers it with its state.",
  ["inputs","fault_sequences","histories"],"every sequence of system-call results (short, zero, error) within the bound","Tests use the real file system where transfers are always complete.",
  ["stream.hpp","socket.hpp","system.hpp"],[("system I/O","basic_sys::read/write, file"),("socket","stream::socket"),("ownership","sys_object")])
p("S13","Byte-order marks are recognised and text is decoded without loss",
  "Detecting the character set of a text stream recognises each supported byte-order mark exactly, consumes just the mark, and otherwise leaves the stream at its start, for streams shorter than the longest mark as well. A mark written by the library is recognised as the same character set.",
  IH,"every content up to 6 bytes","Not covered by tests.",
  ["stream.hpp","unicode.hpp"],[("BOM","basic_file::read_charset, write_charset")])
p("T01","String comparisons define one consistent ordering",
  "Comparing two strings, with or without length limits and case folding, gives the sign of the lexicographic comparison of their code units up to the terminator or limit; it is antisymmetric, zero exactly for equal strings, and every overload agrees on the same text. Collation by a locale sees exactly the same text. Reverse comparison orders by the strings read backwards. Memory beyond the terminator or limit is never read.",
  I,"every pair of strings up to the bound, with and without terminator, narrow and wide","Not covered by tests.",
  ["string.hpp"],[("comparison","strcmp/strncmp/stricmp/strnicmp/strrcmp/strrncmp, strcoll/strncoll")])
p("T02","Bounded string copies never write outside the buffer and never lose text",
  "Copying, concatenating or duplicating a string into a bounded buffer writes only inside the buffer, copies the longest prefix that fits, terminates it whenever there is room, and returns the resulting length. Unbounded forms reproduce the source exactly, duplicates are independent, terminated copies.",
  I,"every source/destination content and size combination up to the bound","One fixed copy is tested.",
  ["string.hpp"],[("copy","strcpy/strncpy/strcat/strncat/strdup/strndup")])
p("T03","String searches return the position a definition-level search gives",
  "Every find function returns the offset of the first (or, for reverse forms, last) occurrence of the sample inside the text, ASCII-case-insensitively for the folding forms, or not-found if and only if there is none. Nothing beyond the terminator or limit is read or matched.",
  I,"every text and sample up to the bound","Not covered by tests.",
  ["string.hpp"],[("search","strchr/strnchr/strrchr/strichr/strstr/strnstr/stristr/strnistr")])
p("T04","Integer parsing is exact, saturates on overflow, and reports where it stopped",
  "Parsing an integer accepts optional white space, a sign and radix prefix, then the longest run of digits valid in the radix; the value is exact when representable in the result type and saturates to the nearest limit otherwise, for signed and unsigned types of every width. The reported end is the first code unit not consumed, and nothing beyond the limit or terminator is read.",
  I,"every text up to the bound for 8-, 16-, 32- and 64-bit results and several radices","Not covered by tests (only hidden behind entity decoding).",
  ["string.hpp"],[("parse","strtoint/strtouint and the sized wrappers")])
p("T05","Trimming, case folding and newline conversion do exactly what they say",
  "Trimming removes all and only leading and/or trailing white space; ASCII case conversion changes exactly the ASCII letters and is idempotent; CRLF conversion replaces each CR-LF pair with LF and changes nothing else. Buffer forms and string forms agree, and return the resulting length.",
  I,"every text up to the bound, every limit","Not covered by tests.",
  ["string.hpp"],[("trim","ltrim/rtrim/trim"),("case","tolower/toupper/strlwr/strupr"),("newline","crlf2nl")])
p("T06","UTF-16 and UTF-32 text convert without loss and glyphs are measured right",
  "Any Unicode code point survives conversion to UTF-16 and back, every well-formed UTF-16 text equals itself converted to UTF-32 and compared across encodings, and unpaired surrogates are passed through unchanged. Glyph length functions count a base character plus all combining marks that follow it, from the front and from the back.",
  I,"every code point; every code-unit string up to the bound","Two literals are tested.",
  ["string.hpp","sgml.hpp"],[("surrogates","ucs4_to_surrogate_pair, strncpy(utf32,utf16), strncmp(utf32,utf16)"),("glyphs","glyphlen/glyphrlen, iscombining")])
p("G01","Entity decoding is total, bounded, and identical for buffers and strings",
  "Decoding SGML text into a string replaces every well-formed known or numeric entity with its characters (unless excluded by the caller) and copies everything else verbatim. Decoding into a fixed buffer gives the same text when it fits with its terminator and raises the overrun error otherwise, never writing outside the buffer; recorded position mappings match the text produced.",
  I,"every text up to the bound over entity-forming characters, every buffer size, every exclusion flag","Seven literals are tested; no fixed buffers.",
  ["sgml.hpp","mapping.hpp"],[("decode","sgml2strcat/sgml2strcpy/sgml2str"),("lookup","sgml2uni, sgmlend")])
p("G02","Entity encoding is reversible, bounded, and identical for buffers and strings",
  "Encoding text to SGML and decoding the result gives back the text for every text of single-code-point glyphs, and the encoded form is pure ASCII that the validity check accepts. Encoding into a fixed buffer gives the same text when it fits with its terminator and raises the overrun error otherwise, never writing outside the buffer.",
  I,"every text up to the bound over all code points, every buffer size, every encoding flag","A few literals are tested; no fixed buffers.",
  ["sgml.hpp"],[("encode","str2sgmlcat/str2sgmlcpy/str2sgml"),("lookup","chr2sgml"),("check","sgmlerr")])
p("H02","HTML, URL and CSS escaping are inverted by unescaping",
  "Escaping text for a URL and unescaping it gives back the text, and the escaped form contains only characters that are safe there; the same holds for CSS escapes. HTML escaping emits no character that markup could interpret and replaces nothing else, and unescaping malformed input never reads outside it.",
  I,"every text up to the bound","Not covered by tests.",
  ["html.hpp"],[("url","url_escape/url_unescape"),("html","escape/escape_min"),("css","css_escape/css_unescape")])
p("U01","UUID text form round-trips and malformed UUIDs are rejected",
  "Printing a UUID and parsing the text gives back the same UUID, in upper and lower case and in narrow and wide text. Parsing succeeds only for a text of five hexadecimal numbers in braces, separated by dashes, each present and within the range of its field (white space around them is allowed, anything before or after is not), and it never reads beyond the given length or terminator.",
  I,"every UUID; every text up to the bound near the valid form","Not covered by tests.",
  ["uuid.hpp"],[("print","uuidtostr"),("parse","strtouuid")])
p("X01","Every parser reports a match inside the text or cleanly reports none",
  "Whatever the text and the start and end within it, a parser either fails and leaves its match region empty or succeeds with a region that begins at the requested start and does not extend beyond the end or terminator; it reads nothing outside. The outcome depends only on its arguments: a parser object used before on any other text gives the same answer as a fresh one.",
  IH,"every text up to the bound, every sub-range, every earlier use, over the whole family of parsers","Only one HTTP request and a few header values are tested.",
  ["parser.hpp"],[("match contract","basic_parser::match/do_match/invalidate")])
p("X02","Numeral parsers compute the value the text denotes",
  "Decimal, hexadecimal, thousand-separated, Roman, signed, fractional and mixed numeral parsers match the longest numeral at the start position per their grammar and deliver exactly the value it denotes. Sub-parts not present in the text are reported as not matched.",
  I,"every text up to the bound over the relevant alphabet","Not covered by tests.",
  ["parser.hpp"],[("integers","basic_integer10/16/10ts, basic_roman_numeral"),("composites","basic_signed_numeral, basic_mixed_numeral, basic_fraction")])
p("X03","Internet address parsers accept valid addresses with the right binary value",
  "The IPv4 and IPv6 parsers deliver for every valid textual address (including zero compression) the same binary value and component regions as its definition, reject text without a complete address, and never report a component outside its range. The DNS name parser accepts exactly label sequences that neither start nor end with a hyphen.",
  I,"every text up to the bound over the address alphabet","Not covered by tests.",
  ["parser.hpp"],[("ipv4","basic_ipv4_address"),("ipv6","basic_ipv6_address"),("dns","basic_dns_name")])
p("X04","Account and reference number checks accept exactly the valid check digits",
  "For every account number or creditor reference with the right form, the parser extracts country, check digits and normalised body exactly and reports it valid if and only if its ISO 7064 modulo-97 checksum (or national modulo-11 checksum) is right. The longest legal number is handled without touching memory outside the parser's buffers.",
  I,"every body content of the bounded positions, all lengths up to the maximum","Not covered by tests.",
  ["parser.hpp"],[("iban","basic_iban"),("creditor","basic_creditor_reference"),("si","basic_si_reference")])
p("X05","HTTP messages are split into the same parts a definition-level reader finds",
  "Parsing an HTTP request line, header, quoted value, parameter, cookie, language or quality value yields regions that designate exactly the respective parts of the text, wherever line breaks and white space fall, and fails when a mandatory part is missing. Lists of weighted values are ordered by weight.",
  I,"every text up to the bound over the syntax-relevant characters","One request and a few headers are tested.",
  ["parser.hpp"],[("http","http_request/http_header/http_value/http_cookie/http_weight/http_value_collection")])
p("X06","JSON and CSS string parsers decode exactly what was written",
  "For every string, its quoted JSON form (with any mix of the defined escapes) is matched as a whole and decoded to that string; an unterminated one is not matched. CSS strings, comments and URIs are matched from the opening to the first unescaped closing delimiter with the content region exactly between them.",
  I,"every text up to the bound over the syntax-relevant characters","Not covered by tests.",
  ["parser.hpp"],[("json","basic_json_string"),("css","basic_css_string/basic_css_comment/basic_css_uri")])
p("X09","HTML tags are split into kind, name, attributes and values",
  "A tag, declaration, comment, instruction or conditional section is matched from its opening to its own closing delimiter, quoted attribute values being able to contain any character but their quote, and its kind, name and attributes (name and value, or none) designate exactly the respective parts of the text. An unterminated one is not matched; matching ends for every text.",
  I,"every text up to the bound over the syntax-relevant characters","Not covered by tests on their own.",
  ["parser.hpp"],[("tag","basic_html_tag/basic_html_ident/basic_html_value"),("conditions","basic_html_declaration_condition_start/end"),("type","basic_mime_type")])
p("D02","HTML documents are split into properly nested parts, and rebuilt from their tokens",
  "An HTML document, passed whole or in chunks, is split into texts, elements, starting and ending tags, comments, declarations, instructions and marked sections that designate exactly the respective parts of the source, in order, without losing text; each knows what it is part of, each starting tag what ends it (its ending tag, or the start of an element it may not contain) and each ending tag what it ends. Sections under IGNORE are left out, with the sections nested in them; the content of CDATA, RCDATA, SCRIPT, STYLE, CODE and COMMENT is not taken for markup. The token tree of any document, finished or not, can be built and linked back to the same source (up to equivalent escapes); whatever the text says is never taken for a reference to a token, positions map into source and text, and stacks of active tokens are started, ended in reverse and merged exactly as asked. Element names are recognised in any letter case and exactly, and the first character set declared is reported.",
  I,"every document composed of up to the bound of pieces, every text up to the bound over the syntax-relevant characters, every split into chunks","Not covered by tests.",
  ["html.hpp"],[("document","document::append/finalize"),("tokens","parser::parse/parse_css/link"),("stacks","parser::start_tokens/end_tokens/merge/append_inserted_tokens"),("names","element::element_code/element_traits")])
p("F01","Formatted text is complete",
  "Text formatted from a template and arguments is the whole text the C library would produce, whatever its length and whatever error an earlier call left behind, in 8-bit and wide form; it is appended behind what was there, or replaces it, the number of units appended is reported, and a text that cannot be expressed is reported with nothing appended. Formatting into a stream writes the same whole text. The text of a time is complete likewise, formatting ends also when it is empty, and a timestamp is formatted from a broken-down time that is complete, the day of the year included.",
  I,"every length around the buffer sizes involved, arbitrary characters at the boundaries, every stale error","Tests format a few short texts.",
  ["string.hpp","chrono.hpp"],[("format","vappendf/appendf/vsprintf/sprintf"),("time","strcatftime/strftime, aosn_timestamp::to_str/to_system")])
p("X07","Parser combinators implement sequence, choice, repetition and permutation",
  "A sequence matches exactly when its parts match one after the other, a choice takes the first alternative that matches and tells which, repetition respects its minimum and maximum and its greediness, and a permutation matches when the parts match in some order; each reports the covered region and the regions of its parts. A part or alternative that does not take part in the match reports no region from earlier use. A single-unit, set or string parser matches exactly the unit, class or text it was made for, or its complement.",
  I,"every text up to the bound, alternatives and counts within the bound","Not covered by tests.",
  ["parser.hpp"],[("combinators","basic_sequence/basic_branch/basic_iterations/basic_permutation/basic_string_branch")])
p("X08","Date and time parsers accept exactly well-formed, in-range dates and times",
  "Dates in each enabled format with matching separators are matched with the right day, month and year if and only if the day exists in that month; the format reported is the one that matched and parts it does not contain are reported as not matched. Times and angles are matched with the right components, minutes and seconds being below 60 and milliseconds below 1000; an optional component that is missing or out of range ends the match before it and is reported as not matched.",
  I,"every text up to the bound over digits and separators, every enabled format","Not covered by tests.",
  ["parser.hpp"],[("date","basic_date"),("time","basic_time"),("angle","basic_angle")])
p("I01","Tagged records nest, align and skip, and truncated files end the search",
  "A record written with its identifier and length is found again and read back equal, nested records included; each record occupies exactly its header, data and padding to the alignment, so that skipping one arrives exactly at the next. Reading a record never consumes bytes beyond it, and searching a truncated or foreign file terminates and reports not found.",
  ["inputs","histories"],"every record content/length up to the bound, alignment 1..4, truncation at any byte","Not covered by tests.",
  ["idrec.hpp","stream.hpp"],[("records","idrec::open/close/find/ignore, record")])
p("V01","Wave file metadata round-trips and malformed wave files are survived",
  "Wave format blocks, cue lists, labels, notes and texts written by the library are read back equal. Reading cues from any file content, including truncated or malformed ones, terminates and reports failure or the cues present, and stripping metadata keeps all other data unchanged.",
  I,"every field value, short strings, truncation at any byte","Not covered by tests.",
  ["wav.hpp","idrec.hpp"],[("wave","wav::format/cue/ltxt/label/note, read_cues, remove_cues")])
p("D01","Calendar conversions are exact inverses over the whole supported range",
  "Converting a calendar day to a day number and back gives the same day, month and year for every valid Gregorian date, consecutive days have consecutive numbers, and the weekday advances accordingly. Converting timestamps to and from Unix time is exact, before and after the epoch.",
  I,"every date of a 400-year cycle and every timestamp in the stated range","Not covered by tests.",
  ["chrono.hpp"],[("date","aosn_date::from_dmy/to_dmy"),("time","aosn_timestamp")])
p("Z01","Owning handles and sanitising memory release each resource exactly once",
  "Every object owning a resource releases it exactly once, whatever the history of moves, assignments and releases; a moved-from owner owns nothing. Memory obtained through the sanitising allocator, and sanitising blobs, are overwritten with zeros before they are given back, for every way the container holding them grows, shrinks, is copied, moved or dies, and also in optimised builds. An action for the end of a scope is executed exactly once there, however the scope is left, with everything it captured still alive.",
  ["histories","inputs"],"every history of ownership operations up to the bound","Not covered by tests.",
  ["memory.hpp","system.hpp","scoped_executor.hpp"],[("scope","scoped_executor"),("sanitize","sanitizing_allocator, sanitizing_blob"),("ownership","ref_unique_ptr, sys_object")])
p("K01","Signature files are parsed strictly and safely",
  "Reading a minisign signature file skips blank lines and untrusted comments and extracts exactly the algorithm, the key identifier and the signature that the first other line encodes. A file that ends before that line is complete, whose signature is too short, or which does not bear the Minisign mark is rejected, as is one whose source fails. No content makes the reader hang or touch memory outside its buffers.",
  I,"every file content up to the bound near the valid form","Not covered by tests.",
  ["minisign.hpp","base64.hpp"],[("minisign","minisign reader")])
p("N01","Character-set conversion delivers all text, in pieces or at once",
  "Converting text between character sets yields the complete conversion whatever the length of the text relative to internal buffers, appends to the destination without disturbing what is there, and honours the length limit and terminator of the source. Invalid input is reported as an error rather than silently dropped, and a converter can be used again afterwards.",
  IH,"every source text up to the bound, every internal buffer boundary, every conversion-engine outcome","Tests convert a few literals.",
  ["unicode.hpp"],[("encoder","charset_encoder::strcat")])
p("E01","Language tags and numeric language identifiers map consistently",
  "Every known numeric language identifier maps to a language tag that maps back to it or to its canonical identifier, look-up is case-insensitive, and unknown or malformed tags are rejected without reading outside the text.",
  I,"every identifier in the table, every tag text up to the bound","One literal is tested.",
  ["langid.hpp"],[("tables","from_rfc1766/to_rfc1766")])
p("E02","The platform and the user are told as the system tells them",
  "A platform name stands for its platform in any letter case and exactly: no part, extension or other text does. System information reports the platform the system names (unknown if it does not tell or names another), the name of the effective user (none if that user has none) and elevation exactly for the superuser.",
  I,"every name up to the bound, every user","Not covered by tests.",
  ["sys_info.hpp"],[("platform","platform_from_name"),("system","sys_info_t")])
p("O01","Progress reports are monotone, scaled and delivered to every listener",
  "A scaled or partial progress indicator forwards to its parent positions inside the announced range, in proportion to its own range and never beyond it, for every range and position including empty ranges. Aggregating and switching helpers forward each notification to exactly the intended listeners and cancellation propagates.",
  IH,"every range and position within the stated width, every history of calls","Not covered by tests.",
  ["progress.hpp"],[("progress","progress_switcher, aggregate_progress, timeout_progress")])
p("Y01","Compression streams round-trip data",
  "Data compressed through the deflate writer and decompressed through the inflate reader is unchanged, for every content, block size and call granularity: everything written is handed to the compressor in order and everything it yields reaches the target before the writer is gone. The reader delivers exactly the decompressed bytes however the source delivers them, ends at the end of the compressed data whatever follows it, and never takes damaged or incomplete data for complete. A failing target, source or library is reported, and compressor and decompressor are released once.",
  IH,"every content and granularity","One text is tested.",
  ["zlib.hpp"],[("zlib","zlib_writer/zlib_reader")])
p("Y02","Unicode normalisation is idempotent and canonical",
  "Normalising text gives canonical composed or decomposed text, applying it again changes nothing, and equivalent texts normalise to the same text.",
  I,"every text","A few literals are tested.",
  ["unicode.hpp"],[("normalise","normalize")])
for x in P: print(json.dumps(x,ensure_ascii=False))
