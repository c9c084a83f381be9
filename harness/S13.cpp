// @bounds files of 0..6 arbitrary bytes, read at any position, with the source delivering the whole or a part of what is asked for; every character set
// @outside files in big-endian byte order (the library only writes and reads the host's order)
#include "mock.h"
using namespace std;
using namespace stdex;
using namespace stdex::stream;
struct part_file : ideal_file {
	virtual size_t read(void* d, size_t l) { return ideal_file::read(d, partial && l > 1 ? 1 + sx_choose((uint32_t)l, "source transfers") : l); }
};
SX_CASE(recognise)
{
	part_file f; f.n = sx_choose(7, "n"); sx_symbolic(f.data, f.n, "content"); f.pos = sx_choose(3, "pos"); f.partial = sx_choose(2, "partial");
	static const charset_id D[] = { charset_id::system, charset_id::utf8, charset_id::utf16, charset_id::windows1250 };
	charset_id def = D[sx_choose(4, "default")];
	charset_id c = f.read_charset(def);
	const uint8_t* d = f.data;
	bool b32 = f.n >= 4 && d[0] == 0xff && d[1] == 0xfe && d[2] == 0 && d[3] == 0, b16 = !b32 && f.n >= 2 && d[0] == 0xff && d[1] == 0xfe,
		b8 = f.n >= 3 && d[0] == 0xef && d[1] == 0xbb && d[2] == 0xbf;
	if (b32) { sx_check(c == charset_id::utf32 && f.pos == 4, "UTF-32"); sx_cover("utf32"); }
	else if (b16) { sx_check(c == charset_id::utf16 && f.pos == 2, "UTF-16"); sx_cover("utf16"); }
	else if (b8) { sx_check(c == charset_id::utf8 && f.pos == 3, "UTF-8"); sx_cover("utf8"); }
	else { sx_check(c == def && f.pos == 0, "no mark: the default, from the start"); sx_cover("none"); }
	sx_check(f.ok(), "the file is ready to be read");
	uint8_t b; size_t p = f.pos, k = f.read(&b, 1);
	sx_check(k == (p < f.n) && (!k || b == d[p]), "reading goes on right after the mark");
}
SX_CASE(round_trip)
{
	ideal_file f; static const charset_id C[] = { charset_id::system, charset_id::utf8, charset_id::utf16, charset_id::utf32, charset_id::windows1250 };
	unsigned k = sx_choose(5, "charset"); static const uint8_t L[] = { 0, 3, 2, 4, 0 };
	uint8_t t[2]; sx_symbolic(t, 2, "text"); sx_assume(t[0] != 0xef && t[0] != 0xff && t[0] != 0);
	f.write_charset(C[k]); sx_check(f.n == L[k] && f.ok(), "the mark's length");
	f.write(t, 2);
	sx_check(f.read_charset(C[4]) == (L[k] ? C[k] : C[4]) && f.pos == L[k], "the library's own mark is recognised");
	memory_file m; m.write_charset(C[k]); m.write(t, 2);
	sx_check(m.size() == f.n && sx_memeq(m.data(), f.data, f.n) && m.read_charset(C[4]) == (L[k] ? C[k] : C[4]) && m.tell() == L[k], "in a memory file as well");
	sx_cover("round trip");
}
