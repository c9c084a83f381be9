// V01: wave files: blocks, cue lists and their texts are read back; malformed files are survived; cues are stripped and nothing else.
// @bounds every value of every field; texts of 0..3 non-zero characters, 0..2 extra format bytes, lists of 0..2 (thorough 3) cues; lists of 3 (thorough 4) cues with any identifiers in any order; complete RIFF/WAVE files with foreign blocks of 0..3 bytes around the cues; files cut at any byte, and with the sizes and counts replaced by values up to the largest
// @outside cue texts containing NUL (the format ends them there), two cue lists or several cues of the same identifier in one file, stripping of damaged files beyond terminating
#include "mock.h"
#include <stdex/wav.hpp>
using namespace stdex::stream;
using namespace stdex;
using fpos = stdex::stream::fpos_t;
static std::string bytes(memory_file& f) { return std::string((const char*)f.data(), (size_t)f.size()); }
static bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && sx_memeq(a.data(), b.data(), a.size()); }
static std::string any(unsigned max) { unsigned n = sx_choose(max + 1, "length"); std::string s(n, 0); if (n) sx_symbolic(&s[0], n, "data"); return s; }
static std::string txt(unsigned max) { unsigned n = sx_choose(max + 1, "text length"); std::string s(n, 0); for (unsigned i = 0; i < n; ++i) s[i] = (char)sx_range(1, 255, "char"); return s; }
static void p4(std::string& w, uint32_t v) { w.append((const char*)&v, 4); }
static void p2(std::string& w, uint16_t v) { w.append((const char*)&v, 2); }
static void block(std::string& w, const char* id, const std::string& d) { w.append(id, 4); p4(w, (uint32_t)d.size()); w += d; if (d.size() & 1) w += '\0'; }
static std::string zs(const std::string& s) { return s.empty() ? s : s + '\0'; }

// write a record, compare with the layout, read it back with something behind it
template <class T> static void trip(T& in, T& out, const char* id, const std::string& content)
{
	memory_file f; std::string w; basic& plain = f; bool via = sx_choose(2, "plain stream");
	if (via) plain << typename T::record(in); else f << typename T::record(in);
	sx_check(f.ok(), "written");
	block(w, id, content); sx_check(same(bytes(f), w), "layout");
	f << (uint32_t)0xaabbccdd; f.seekbeg(0); uint32_t i, z; f >> i; sx_check(i == T::record::id(), "identifier");
	if (via) plain >> typename T::record(out); else f >> typename T::record(out);
	sx_check(f.ok() && f.tell() == w.size(), "read, up to the next record"); f >> z; sx_check(f.ok() && z == 0xaabbccdd, "next record untouched");
}
SX_CASE(format)
{
	wav::format a, b; a.compression = (wav::format::compression_t)sx_u16("compression"); a.num_channels = sx_u16("channels"); a.sample_rate = sx_u32("rate"); a.bytes_per_second = sx_u32("bps"); a.block_align = sx_u16("align"); a.bits_per_channel = sx_u16("bits");
	std::string x = any(3), w; if (x.size()) a.extra.write(x.data(), x.size());
	p2(w, (uint16_t)a.compression); p2(w, a.num_channels); p4(w, a.sample_rate); p4(w, a.bytes_per_second); p2(w, a.block_align); p2(w, a.bits_per_channel); if (x.size()) { p2(w, (uint16_t)x.size()); w += x; }
	if (sx_choose(2, "old content")) { b.extra.write("older", 5); b.num_channels = 7; }
	trip(a, b, "fmt ", w);
	sx_check(b.compression == a.compression && b.num_channels == a.num_channels && b.sample_rate == a.sample_rate && b.bytes_per_second == a.bytes_per_second && b.block_align == a.block_align && b.bits_per_channel == a.bits_per_channel, "format read back");
	sx_check(same(bytes(b.extra), x), "extra data read back"); sx_cover(x.size() ? "extra" : "no extra");
}
SX_CASE(data)
{
	wav::data a, b; std::string x = any(4); if (x.size()) a.content.write(x.data(), x.size()); if (sx_choose(2, "old content")) b.content.write("older", 5);
	trip(a, b, "data", x); sx_check(same(bytes(b.content), x), "samples read back"); sx_cover("data");
}
SX_CASE(silence) { wav::silence a, b; a.num_samples = sx_u32("samples"); std::string w; p4(w, a.num_samples); trip(a, b, "slnt", w); sx_check(a.num_samples == b.num_samples, "silence read back"); sx_cover("silence"); }
SX_CASE(header) { wav::header a, b; a.type = sx_u32("type"); std::string w; p4(w, a.type); trip(a, b, "RIFF", w); sx_check(a.type == b.type, "header read back"); sx_cover("header"); }
SX_CASE(label) { wav::label a, b; a.id = sx_u32("id"); a.title = txt(3); b.title = "old"; std::string w; p4(w, a.id); trip(a, b, "labl", w + zs(a.title)); sx_check(a.id == b.id && same(a.title, b.title), "label read back"); sx_cover("label"); }
SX_CASE(note) { wav::note a, b; a.id = sx_u32("id"); a.note = txt(3); b.note = "old"; std::string w; p4(w, a.id); trip(a, b, "note", w + zs(a.note)); sx_check(a.id == b.id && same(a.note, b.note), "note read back"); sx_cover("note"); }
static std::string ltxt_bytes(const wav::cue_ex& a) { std::string w; p4(w, a.id); p4(w, a.duration); p4(w, a.purpose_id); p2(w, a.country); p2(w, a.language); p2(w, a.dialect); p2(w, a.charset); return w + zs(a.description); }
SX_CASE(ltxt)
{
	wav::ltxt a, b; wav::cue_ex c;
	c.id = a.id = sx_u32("id"); c.duration = a.duration = sx_u32("duration"); c.purpose_id = a.purpose_id = sx_u32("purpose"); c.country = a.country = sx_u16("country"); c.language = a.language = sx_u16("language"); c.dialect = a.dialect = sx_u16("dialect"); c.charset = a.charset = sx_u16("charset"); c.description = a.description = txt(3); b.description = "old";
	trip(a, b, "ltxt", ltxt_bytes(c));
	sx_check(a.id == b.id && a.duration == b.duration && a.purpose_id == b.purpose_id && a.country == b.country && a.language == b.language && a.dialect == b.dialect && a.charset == b.charset && same(a.description, b.description), "text read back"); sx_cover("ltxt");
}
static bool plain_fields; // small numbers instead of symbols
static uint32_t u32(const char* n, unsigned v) { return plain_fields ? v : sx_u32(n); }
static uint16_t u16(const char* n, unsigned v) { return plain_fields ? (uint16_t)v : sx_u16(n); }
static void fill(wav::cue& c, unsigned i = 0) { c.id = u32("id", 8 + i); c.position = u32("position", 2); c.chunk_id = u32("chunk", 0x61746164); c.chunk_offset = u32("chunk offset", 0); c.block_start = u32("block start", 4); c.block_offset = u32("block offset", 0x5453494c); }
static void cue_bytes(std::string& w, const wav::cue& c) { p4(w, c.id); p4(w, c.position); p4(w, c.chunk_id); p4(w, c.chunk_offset); p4(w, c.block_start); p4(w, c.block_offset); }
static bool eq(const wav::cue& a, const wav::cue& b) { return (a.id == b.id) & (a.position == b.position) & (a.chunk_id == b.chunk_id) & (a.chunk_offset == b.chunk_offset) & (a.block_start == b.block_start) & (a.block_offset == b.block_offset); }
static bool eqx(const wav::cue_ex& a, const wav::cue_ex& b) { return eq(a, b) && ((a.duration == b.duration) & (a.purpose_id == b.purpose_id) & (a.country == b.country) & (a.language == b.language) & (a.dialect == b.dialect) & (a.charset == b.charset)) && same(a.description, b.description) && same(a.title, b.title) && same(a.note, b.note); }
SX_CASE(cue_vector)
{
	wav::cue_vector a(sx_choose(4, "cues")), b(sx_choose(2, "old cues")); std::string w; p4(w, (uint32_t)a.size()); for (auto& c : a) { fill(c); cue_bytes(w, c); }
	memory_file f; f << wav::cue_vector_record(a); std::string l; block(l, "cue ", w); sx_check(same(bytes(f), l), "layout");
	// the count may be wrong
	uint32_t claim = (uint32_t)a.size(); switch (sx_choose(5, "count")) { case 1: claim++; break; case 2: claim = 0x7fffffff; break; case 3: claim = 0xffffffff; break; case 4: if (claim) claim--; break; }
	f.seekbeg(8); f << claim; f.seekend(0); f << (uint64_t)7; f.seekbeg(4);
	f >> wav::cue_vector_record(b); size_t n = claim < a.size() ? claim : a.size();
	sx_check(b.size() == n, "the cues that are there"); for (size_t i = 0; i < n; ++i) sx_check(eq(a[i], b[i]), "cue read back");
	sx_check(f.tell() == l.size() && f.ok(), "up to the next record"); sx_cover(claim > n ? "too many claimed" : "all");
}
// a complete file: RIFF WAVE { fmt, [foreign], cues, [foreign], data }
struct made { std::string file, clean; wav::cue_ex_vector cues; fpos content = 12, end; };
static void build(made& m, unsigned maxcues, unsigned texts, bool by_library)
{
	unsigned n = sx_choose(maxcues + 1, "cues"); m.cues.resize(n);
	for (unsigned i = 0; i < n; ++i) {
		auto& c = m.cues[i]; fill(c, i); for (unsigned j = 0; j < i && !plain_fields; ++j) sx_assume(c.id != m.cues[j].id);
		c.duration = u32("duration", 6); c.purpose_id = u32("purpose", 0); c.country = u16("country", 1); c.language = u16("language", 0); c.dialect = u16("dialect", 3); c.charset = u16("charset", 2);
		unsigned t = i ? texts / 2 : texts; c.description = txt(t); c.title = txt(t); c.note = txt(t);
	}
	std::string q, l("adtl"), in, cl;
	p4(q, n); for (auto& c : m.cues) cue_bytes(q, c);
	for (auto& c : m.cues) { block(l, "ltxt", ltxt_bytes(c)); std::string w; p4(w, c.id); if (c.title.size()) block(l, "labl", w + zs(c.title)); if (c.note.size()) block(l, "note", w + zs(c.note)); }
	std::string fx(16, 1); block(in, "fmt ", fx);
	std::string o1 = any(1), o2 = any(1), info("INFO"); block(info, "INAM", "ab"); block(info, "ICRD", std::string("2", 1));
	bool fore = sx_choose(2, "foreign"); if (fore) { block(in, "LIST", info); block(in, "odd ", o1); }
	cl = in; unsigned order = sx_choose(2, "order");
	std::string both; if (by_library) { memory_file f; f << m.cues; sx_check(f.ok(), "cues written"); both = bytes(f); std::string w; block(w, "cue ", q); block(w, "LIST", l); sx_check(same(both, w), "layout of the cues"); }
	else if (order) { block(both, "LIST", l); block(both, "cue ", q); } else { block(both, "cue ", q); block(both, "LIST", l); }
	in += both; block(in, "data", o2); block(cl, "data", o2); if (fore) { block(in, "TAIL", "xyzw"); block(cl, "TAIL", "xyzw"); }
	block(m.file, "RIFF", "WAVE" + in); block(m.clean, "RIFF", "WAVE" + cl); m.end = m.file.size();
}
static const wav::cue_ex* by_id(const wav::cue_ex_vector& v, uint32_t id) { for (auto& c : v) if (c.id == id) return &c; return nullptr; }
static void complete(unsigned n, unsigned t, bool lib)
{
	made m; build(m, n, t, lib); memory_file f; std::string file = m.file; bool tail = sx_choose(2, "something behind"); if (tail) file += "RIFX...."; f.write(file.data(), file.size()); f.seekbeg(0);
	fpos end = 0; sx_check(wav::find_content(f, sx_choose(2, "to the end") ? fpos_max : (fpos)file.size(), &end), "wave found"); sx_check(f.tell() == m.content && end == m.end, "content of the wave");
	wav::cue_ex_vector r; if (sx_choose(2, "used before")) { r.resize(2); r[0].title = "old"; r[1].note = "old"; r[0].duration = 3; if (m.cues.empty()) r.clear(); }
	bool whole = !tail && sx_choose(2, "no end given");
	sx_check(wav::read_cues(f, r, whole ? fpos_max : end), "cues read"); sx_check(r.size() == m.cues.size(), "all the cues");
	for (size_t i = 0; i < r.size(); ++i) { if (i) sx_check(r[i - 1].id < r[i].id, "in order of identifiers"); auto* c = by_id(m.cues, r[i].id); sx_check(c && eqx(*c, r[i]), "cue with its texts"); }
	sx_check(f.tell() == m.content, "back at the content"); sx_cover(r.empty() ? "no cues" : "cues");
}
SX_CASE(file) { complete(1, sx_bound(1, 2), false); }
SX_CASE(file_by_library) { complete(1, sx_bound(1, 2), true); }
SX_CASE(file_of_two) { complete(2, 0, false); }
SX_CASE(T_file_of_three) { complete(3, 0, true); }
SX_CASE(ordering)
{
	unsigned n = sx_bound(3, 4); std::vector<uint32_t> id(n); std::string q, l("adtl"); p4(q, n);
	for (unsigned i = 0; i < n; ++i) { id[i] = sx_u32("id"); for (unsigned j = 0; j < i; ++j) sx_assume(id[i] != id[j]); p4(q, id[i]); for (unsigned k = 1; k < 6; ++k) p4(q, 16 * i + k); }
	for (unsigned i = 0; i < n; ++i) { std::string w; p4(w, id[i]); block(l, "labl", w + zs(std::string(1, (char)('a' + i)))); }
	std::string s; block(s, "cue ", q); block(s, "LIST", l); memory_file f; f.write(s.data(), s.size()); f.seekbeg(0);
	wav::cue_ex_vector r; sx_check(wav::read_cues(f, r, (fpos)s.size()), "cues read"); sx_check(r.size() == n, "all the cues");
	for (unsigned i = 0; i < n; ++i) { unsigned j = (r[i].position - 1) / 16; if (i) sx_check(r[i - 1].id < r[i].id, "in order of identifiers"); sx_check(j < n, "a cue of the file"); sx_check(r[i].id == id[j] && r[i].title.size() == 1 && r[i].title[0] == (char)('a' + j), "its name"); }
	sx_cover("ordered");
}
SX_CASE(truncated)
{
	made m; build(m, 2, 0, false); size_t cut = sx_choose((unsigned)m.file.size(), "cut"); memory_file f; f.write(m.file.data(), cut); f.seekbeg(0);
	fpos end = 0; bool found = wav::find_content(f, fpos_max, &end); sx_check(found == (cut >= 12), "wave found"); if (!found) { sx_cover("no wave"); return; }
	wav::cue_ex_vector r; bool whole = sx_choose(2, "no end given"); bool ok = wav::read_cues(f, r, whole ? fpos_max : end);
	sx_check(r.size() <= m.cues.size(), "no cues but those of the file"); for (auto& x : r) { auto* c = by_id(m.cues, x.id); sx_check(c && eq(*c, x), "cue of the file"); sx_check((x.duration == 0) | (x.duration == c->duration), "with its length or none"); }
	sx_cover(ok ? "read" : "failed"); if (r.size()) sx_cover("some");
}
SX_CASE(malformed)
{
	plain_fields = true; made m; build(m, 2, 0, false); std::string s = m.file; static const uint32_t big[] = { 0, 1, 2, 4, 12, 30, 0x7fffffff, 0xfffffffe, 0xffffffff };
	// replace one (thorough: two) of the sizes or counts by something else
	unsigned at[24], n = 0; at[n++] = 4;
	for (size_t p = 12; p + 8 <= s.size();) {
		uint32_t z; memcpy(&z, &s[p + 4], 4); at[n++] = (unsigned)p + 4;
		if (!memcmp(&s[p], "LIST", 4)) p += 12; else { if (!memcmp(&s[p], "cue ", 4)) at[n++] = (unsigned)p + 8; p += 8 + z + (z & 1); }
	}
	for (unsigned k = 0; k < 1 + (sx_tier() > 0); ++k) memcpy(&s[at[sx_choose(n, "place")]], &big[sx_choose(9, "value")], 4);
	memory_file f; f.write(s.data(), s.size()); f.seekbeg(0); fpos end = 0; if (!wav::find_content(f, fpos_max, &end)) { sx_cover("no wave"); return; }
	wav::cue_ex_vector r; bool ok = wav::read_cues(f, r, sx_choose(2, "no end given") ? fpos_max : end);
	if (!sx_tier()) for (auto& x : r) { auto* c = by_id(m.cues, x.id); sx_check(c && eq(*c, x), "cue of the file"); } // two changes may make a longer list of other data
	sx_cover(ok ? "read" : "failed");
	memory_file g; f.seekbeg(0); bool rem = wav::remove_cues(f, g); sx_check(g.size() <= s.size() + 8, "nothing made up"); sx_cover(rem ? "removed" : "not removed");
}
SX_CASE(arbitrary)
{
	std::string s = any(sx_bound(8, 9)); for (char& c : s) (void)c; memory_file f; f.write(s.data(), s.size()); f.seekbeg(0);
	wav::cue_ex_vector r; bool ok = wav::read_cues(f, r, sx_choose(2, "no end given") ? fpos_max : (fpos)s.size()); sx_check(r.empty(), "no cues in so little"); sx_cover(ok ? "read" : "failed");
}
SX_CASE(strip)
{
	made m; build(m, 2, 1, false); memory_file f, g; f.write(m.file.data(), m.file.size()); f.seekbeg(0); if (sx_choose(2, "longer before")) { std::string z(m.file.size() + 10, 'z'); g.write(z.data(), z.size()); g.seekbeg(0); }
	sx_check(wav::remove_cues(f, g, sx_choose(2, "no end given") ? fpos_max : (fpos)m.file.size()), "stripped"); sx_check(same(bytes(g), m.clean), "everything but the cues"); sx_cover(m.cues.empty() ? "no cues" : "stripped");
}
