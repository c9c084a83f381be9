// @bounds IPv4: 3..5 numbers, the first or the fourth one of 0..3 (thorough 0..4) arbitrary digits, every separator place, missing or doubled; memory ends at the limit; IPv6: up to 9 groups, zero compression at every place, a second compression, trailing and leading separators, arbitrary digits in one group of up to 5 digits, scope identifiers; domain names: every text of 0..4 (thorough 0..6) arbitrary units, absolute names allowed and not; URL paths: every text of 0..4 arbitrary units; URL and e-mail address: parts whose behaviour is arbitrary at each position of a text of up to 9 units
// @outside addresses written in SGML entities; embedded IPv4 in IPv6; longer texts
// @assume start <= min(end, length)
#include "parse.h"
struct hexd { std::shared_ptr<basic_parser<char>> d[16]; hexd() { static const char h[] = "0123456789abcdef"; for (int i = 0; i < 16; ++i) d[i] = std::make_shared<basic_cu<char>>(h[i]); } };
static std::shared_ptr<basic_parser<char>> ch(char c) { return std::make_shared<basic_cu<char>>(c); }
static bool none(const interval<size_t>& i) { return !i; }
SX_CASE(ipv4)
{
	hexd h; basic_ipv4_address<char> p(h.d[0], h.d[1], h.d[2], h.d[3], h.d[4], h.d[5], h.d[6], h.d[7], h.d[8], h.d[9], ch('.'));
	if (sx_choose(2, "used")) sx_check(p.match("1.2.3.4", 0, 7), "earlier match");
	size_t start = sx_choose(2, "start"); char b[40]; size_t n = start; b[0] = '9';
	unsigned groups = 3 + sx_choose(3, "groups"), which = sx_choose(2, "which") * 3;
	struct { size_t s, e; uint64_t v; } g[5]; unsigned good = 0; bool ok = true; size_t fin = 0;
	for (unsigned i = 0; i < groups; ++i) {
		unsigned len = i == which ? sx_choose(sx_bound(4, 5), "digits") : 1; uint64_t v = 0; bool over = false; g[i].s = n; g[i].e = n;
		for (unsigned k = 0; k < len; ++k) {
			uint64_t d = i == which ? sx_range(0, 9, "digit") : i + 3; b[n++] = char('0' + d);
			if (!over) { if (v * 10 + d <= 255) v = v * 10 + d, g[i].e = n; else over = true; }
		}
		g[i].v = v;
		if (ok && g[i].e > g[i].s && i < 4) { ++good; fin = g[i].e; } else ok = false;
		if (over) ok = false;
		if (i + 1 < groups || sx_choose(2, "tail")) { b[n++] = i == which && sx_choose(2, "other separator") ? ',' : '.'; if (b[n - 1] != '.') ok = false; }
		else ok = false;
	}
	char* s = new char[n]; memcpy(s, b, n);
	bool r = p.match(s, start, n);
	sx_check(r == (good == 4), "complete address");
	if (r) {
		sx_check(at(p, start, fin), "region"); uint32_t v = 0;
		for (int i = 0; i < 4; ++i) { sx_check(p.components[i].start == g[i].s && p.components[i].end == g[i].e, "region of a number"); v |= (uint32_t)g[i].v << (8 * i); }
		sx_check(p.value.s_addr == v, "binary address in network order"); sx_cover("address");
	} else { sx_check(!p.interval && p.value.s_addr == 0, "no address"); for (auto& c : p.components) sx_check(none(c), "no number"); sx_cover("no address"); }
	delete[] s;
}
static basic_ipv6_address<char> v6(bool scope, std::shared_ptr<basic_parser<char>> id)
{
	hexd h; return basic_ipv6_address<char>(h.d[0], h.d[1], h.d[2], h.d[3], h.d[4], h.d[5], h.d[6], h.d[7], h.d[8], h.d[9], h.d[10], h.d[11], h.d[12], h.d[13], h.d[14], h.d[15], ch(':'), scope ? ch('%') : nullptr, id);
}
// A definition-level reader of the longest IPv6 address at the start of a text.
struct v6ref {
	bool ok = false; size_t end = 0; uint64_t w[8] = {}; size_t cs[8], ce[8];
	// k[i]: digit 0..15, 16 colon, 17 other
	template <class F> v6ref(size_t start, size_t n, F k, const uint64_t* v)
	{
		uint64_t val[8]; size_t s[8], e[8]; unsigned groups = 0, zero = 9; size_t pos = start, zpos = 0;
		auto group = [&](size_t q, size_t& qe, uint64_t& x) { x = 0; qe = q; while (qe < n && k(qe) < 16 && x * 16 + v[qe] <= 0xffff) { x = x * 16 + v[qe]; ++qe; } return qe > q; };
		auto colon = [&](size_t q) { return q < n && k(q) == 16; };
		size_t fin = start; bool first = true;
		for (;;) {
			if (groups == 8) break;
			size_t q = pos;
			if (first && colon(q) && colon(q + 1) ) { zero = 0; zpos = q + 1; pos = q = q + 2; fin = pos; first = false; if (!group(q, e[0], val[0])) break; s[0] = q; groups = 1; pos = fin = e[0]; continue; }
			if (first) { if (!group(q, e[0], val[0])) break; s[0] = q; groups = 1; pos = fin = e[0]; first = false; continue; }
			if (!colon(q)) break;
			if (colon(q + 1)) {
				if (zero != 9) break;
				zero = groups; zpos = q + 1; pos = fin = q + 2;
				if (groups >= 7) break; // "::" stands for at least one group
				size_t ge; uint64_t x; if (!group(pos, ge, x)) break;
				s[groups] = pos; e[groups] = ge; val[groups++] = x; pos = fin = ge; continue;
			}
			if (zero != 9 && groups >= 7) break;
			size_t ge; uint64_t x; if (!group(q + 1, ge, x)) { break; }
			s[groups] = q + 1; e[groups] = ge; val[groups++] = x; pos = fin = ge;
		}
		if (zero == 9 && groups < 8) return;
		ok = true; end = fin;
		if (zero == 9) zero = 8;
		unsigned tail = groups - (zero < groups ? zero : groups);
		for (unsigned i = 0; i < 8; ++i) {
			if (i < zero) w[i] = val[i], cs[i] = s[i], ce[i] = e[i];
			else if (i < 8 - tail) w[i] = 0, cs[i] = ce[i] = zpos;
			else { unsigned j = i - (8 - tail) + zero; w[i] = val[j]; cs[i] = s[j]; ce[i] = e[j]; }
		}
	}
};
static void v6check(basic_ipv6_address<char>& p, const char* b, size_t start, size_t n, const unsigned* k, const uint64_t* v, bool scope)
{
	char* s = new char[n]; memcpy(s, b, n);
	v6ref f(start, n, [&](size_t i) { return k[i]; }, v);
	bool r = p.match(s, start, n);
	sx_check(r == f.ok, "address recognised");
	if (r) {
		size_t fin = f.end, ids = 0, ide = 0; bool id = false;
		if (scope && fin < n && b[fin] == '%') { ids = ide = fin + 1; while (ide < n && b[ide] == 'z') ++ide; if (ide > ids) fin = ide, id = true; }
		sx_check(at(p, start, fin), "region");
		for (int i = 0; i < 8; ++i) {
			sx_check(((p.value.s6_addr[2 * i] << 8) | p.value.s6_addr[2 * i + 1]) == (int)f.w[i], "group value in network order");
			sx_check(p.components[i].start == f.cs[i] && p.components[i].end == f.ce[i], "region of a group");
		}
		if (scope) sx_check(id ? at(*p.scope_id, ids, ide) : !p.scope_id->interval, "scope"); sx_cover(id ? "address with scope" : "v6 address");
	} else { sx_check(!p.interval, "no address"); for (auto& c : p.components) sx_check(none(c), "no group"); for (auto x : p.value.s6_addr) sx_check(x == 0, "no value"); sx_cover("no v6 address"); }
	delete[] s;
}
static std::shared_ptr<basic_parser<char>> zs() { return std::make_shared<basic_iterations<char>>(ch('z'), 1); }
SX_CASE(ipv6_form) // any arrangement of groups and separators
{
	bool scope = sx_choose(2, "scope"); auto p = v6(scope, scope ? zs() : nullptr);
	if (sx_choose(2, "used")) sx_check(p.match("1:2:3:4:5:6:7:8", 0, 15), "earlier match");
	char b[64]; unsigned k[64]; uint64_t v[64]; size_t n = 0, start = 0;
	auto put = [&](char c) { k[n] = c == ':' ? 16 : c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 17; v[n] = k[n]; b[n++] = c; };
	static const char* const grp = "1a2b3c4d5e6f7890abcd";
	unsigned lead = sx_choose(3, "leading separators"); for (unsigned i = 0; i < lead; ++i) put(':');
	unsigned groups = sx_choose(10, "groups"), c1 = sx_choose(groups + 1, "doubled"), c2 = groups ? sx_choose(groups + 1, "second doubled") : 0;
	for (unsigned i = 0; i < groups; ++i) {
		put(grp[2 * i]); if (i & 1) put(grp[2 * i + 1]);
		if (i + 1 < groups) { put(':'); if (i + 1 == c1 || i + 1 == c2) put(':'); }
	}
	unsigned tail = sx_choose(5, "tail"); if (tail == 1) put(':'); if (tail == 2) put(':'), put(':'); if (tail == 3) put('%'); if (tail == 4) put('%'), put('z'), put('z');
	v6check(p, b, start, n, k, v, scope);
}
SX_CASE(ipv6_value) // arbitrary digits
{
	auto p = v6(false, nullptr); bool comp = sx_choose(2, "compressed"); unsigned which = sx_choose(comp ? 3 : 8, "which"), len = 1 + sx_choose(sx_bound(3, 4), "digits");
	char b[64]; unsigned k[64]; uint64_t v[64]; size_t n = 0;
	auto put = [&](unsigned d) { k[n] = d; v[n] = d; b[n++] = d == 16 ? ':' : char(d < 10 ? '0' + d : 'a' + d - 10); };
	unsigned groups = comp ? 3 : 8;
	for (unsigned i = 0; i < groups; ++i) {
		if (i) put(16); if (comp && i == 1) put(16);
		if (i == which) for (unsigned j = 0; j < len; ++j) { uint64_t d = sx_range(0, 15, "digit"); k[n] = 0; v[n] = d; b[n] = char(d + (d < 10 ? '0' : 'a' - 10)); ++n; }
		else put(i + 1);
	}
	v6check(p, b, 0, n, k, v, false);
}
SX_CASE(dns)
{
	bool absolute = sx_choose(2, "absolute"); text<char> s(sx_bound(4, 5), "length"); size_t start = s.n > 1 ? sx_choose(2, "start") : 0;
	basic_dns_name<char> p(absolute, std::make_shared<basic_dns_domain_char<char>>(false), ch('.'));
	if (sx_choose(2, "used")) sx_check(p.match("a-b.c", 0, 5) && p.interval.end == 5, "earlier match");
	bool r = p.match(s.p, start, s.limit);
	// longest prefix made of labels
	auto al = [&](size_t i) { char c = s.at[i]; return ((unsigned)(lc(c) - 'a') < 26) | ((unsigned)(c - '0') < 10); };
	size_t fin = start, i = start;
	while (i < s.n && al(i)) {
		size_t e = ++i; while (i < s.n) { if (al(i)) e = ++i; else if (s.at[i] == '-') ++i; else break; }
		fin = e; if (e != i || i >= s.n || s.at[i] != '.') break;
		++i; if (absolute) fin = i;
	}
	sx_check(r == (fin > start), "name recognised"); region_is(p, r, start, fin, "longest name"); sx_cover(r ? "name" : "no name");
}
SX_CASE(url_path)
{
	text<char> s(sx_bound(3, 4), "length"); size_t start = s.n > 1 ? sx_choose(2, "start") : 0;
	basic_url_path<char> p(std::make_shared<basic_url_path_char<char>>(std::locale::classic()), ch('?'), ch('#'));
	if (sx_choose(2, "used")) sx_check(p.match("/a?b#c", 0, 6) && p.query && p.bookmark, "earlier match");
	bool r = p.match(s.p, start, s.limit);
	static const char ok[] = "/-._~%!$&'()*+,;=:@?#"; size_t i = start, q = NONE, k = NONE;
	for (; i < s.n; ++i) {
		char c = s.at[i]; bool a = ((unsigned)(lc(c) - 'a') < 26) | ((unsigned)(c - '0') < 10); for (const char* o = ok; *o; ++o) a |= c == *o;
		if (!a) break;
		if (c == '?') { if (q == NONE && k == NONE) q = i; } else if (c == '#') { if (k == NONE) k = i; }
	}
	bool w = i > start; sx_check(r == w, "path recognised"); region_is(p, r, start, i, "region");
	if (r) {
		size_t pe = q != NONE ? q : k != NONE ? k : i; sx_check(p.path.start == start && p.path.end == pe, "path");
		sx_check(q == NONE ? none(p.query) : p.query.start == q + 1 && p.query.end == (k != NONE ? k : i), "query");
		sx_check(k == NONE ? none(p.bookmark) : p.bookmark.start == k + 1 && p.bookmark.end == i, "bookmark"); sx_cover(q != NONE && k != NONE ? "T:query and bookmark" : "path");
	} else { sx_check(none(p.path) && none(p.query) && none(p.bookmark), "nothing"); sx_cover("no path"); }
}
struct parts { size_t N; const char* text = "abcdefghijklmnop"; int fl = 0; bool used; parts(size_t n) : N(n) { used = sx_choose(2, "used"); } ppart operator()(const char* name, size_t lo = 1, size_t hi = 1) { return mk(name, N, lo, hi, text, fl, used); } };
static bool seq(std::initializer_list<part*> l, size_t pos, size_t* e) { size_t i = 0; for (part* x : l) { int m = x->at(pos); if (m < 0) return false; pos += m; e[i++] = pos; } return true; }
SX_CASE(email)
{
	parts m(4 + sx_choose(3, "length")); ppart u = m("user"), a = m("at"), lb = m("["), rb = m("]"), h4 = m("ipv4"), h6 = m("ipv6"), hn = m("name");
	basic_email_address<char> p(u, a, lb, rb, h4, h6, hn); bool r = p.match(m.text, 0, m.N);
	size_t e[2], f[3]; int host = -1; size_t hs = 0, he = 0, fin = 0;
	if (seq({ u.get(), a.get() }, 0, e)) {
		if (seq({ lb.get(), h4.get(), rb.get() }, e[1], f)) host = 0, hs = f[0], he = f[1], fin = f[2];
		else if (seq({ lb.get(), h6.get(), rb.get() }, e[1], f)) host = 1, hs = f[0], he = f[1], fin = f[2];
		else if (hn->at(e[1]) >= 0) host = 2, hs = e[1], fin = he = hs + hn->at(hs);
	}
	sx_check(r == (host >= 0), "address recognised"); region_is(p, r, 0, fin, "region"); region_is(*u, r, 0, e[0], "user");
	region_is(*h4, host == 0, hs, he, "IPv4 host"); region_is(*h6, host == 1, hs, he, "IPv6 host"); region_is(*hn, host == 2, hs, he, "host name"); sx_cover(r ? "e-mail" : "no e-mail");
}
static void url_of(unsigned scheme) // 0 http, 1 ftp, 2 mailto, 3 file, 4 none
{
	parts m(10); ppart sc[4] = { m("http"), m("ftp"), m("mailto"), m("file") };
	ppart colon = m(":"), slash = m("/"), u = m("user"), pw = m("password"), a = m("at"), lb = m("["), rb = m("]"), h4 = m("ipv4"), h6 = m("ipv6"), hn = m("name"), port = m("port"), path = m("path");
	for (unsigned i = 0; i < 4; ++i) sc[i]->t[0] = i == scheme ? 1 : -1;
	if (scheme < 4) { colon->t[1] = 1; if (scheme != 2) slash->t[2] = slash->t[3] = 1; }
	basic_url<char> p(sc[0], sc[1], sc[2], sc[3], colon, slash, u, pw, a, lb, rb, h4, h6, hn, port, path); bool r = p.match(m.text, 0, m.N);
	size_t pos = scheme == 4 ? 0 : scheme == 2 ? 2 : 4, us = pos, ue = 0, ps = 0, pe = 0, hs = 0, he = 0, os = 0, oe = 0, as = 0, ae = 0, e[3]; bool hu = false, hp = false, ho = false, ha = false, ok = true; int host = -1;
	if (scheme < 3 && u->at(pos) >= 0) {
		ue = pos + u->at(pos);
		if (scheme != 2 && seq({ colon.get(), pw.get(), a.get() }, ue, e)) hu = hp = true, ps = e[0], pe = e[1], pos = e[2];
		else if (a->at(ue) >= 0) hu = true, pos = ue + a->at(ue);
	}
	if (scheme == 2 && !hu) ok = false;
	if (ok && scheme != 3) {
		if (scheme == 2) { if (seq({ lb.get(), h4.get(), rb.get() }, pos, e)) host = 0, hs = e[0], he = e[1], pos = e[2]; }
		else if (h4->at(pos) >= 0) host = 0, hs = pos, he = pos += h4->at(pos);
		if (host < 0) {
			if (seq({ lb.get(), h6.get(), rb.get() }, pos, e)) host = 1, hs = e[0], he = e[1], pos = e[2];
			else if (hn->at(pos) >= 0) host = 2, hs = pos, he = pos += hn->at(pos);
		}
		ok = host >= 0;
		if (ok && scheme != 2 && seq({ colon.get(), port.get() }, pos, e)) ho = true, os = e[0], oe = pos = e[1];
	}
	if (ok && scheme != 2 && path->at(pos) >= 0) ha = true, as = pos, ae = pos += path->at(pos);
	sx_check(r == ok, "URL recognised"); region_is(p, ok, 0, pos, "region");
	for (unsigned i = 0; i < 4; ++i) region_is(*sc[i], ok && i == scheme, 0, 1, "scheme");
	region_is(*u, ok && hu, us, ue, "user name"); region_is(*pw, ok && hp, ps, pe, "password"); region_is(*h4, ok && host == 0, hs, he, "IPv4 host"); region_is(*h6, ok && host == 1, hs, he, "IPv6 host"); region_is(*hn, ok && host == 2, hs, he, "host name");
	region_is(*port, ok && ho, os, oe, "port"); region_is(*path, ok && ha, as, ae, "path"); if (ok) sx_cover("URL"); else sx_cover("no URL");
}
SX_CASE(url_http) { url_of(0); }
SX_CASE(url_ftp) { url_of(1); }
SX_CASE(url_mailto) { url_of(2); }
SX_CASE(url_default) { url_of(4); }
SX_CASE(url_file)
{
	parts m(6); ppart sc[4] = { m("http"), m("ftp"), m("mailto"), m("file") };
	ppart colon = m(":"), slash = m("/"), x = m("other"), path = m("path", 1, 2); sc[3]->t[0] = 1; for (int i = 0; i < 3; ++i) sc[i]->t[0] = -1; colon->t[1] = 1; slash->t[2] = slash->t[3] = 1;
	basic_url<char> p(sc[0], sc[1], sc[2], sc[3], colon, slash, m("user"), m("password"), x, x, x, m("v4"), m("v6"), m("dns"), m("port"), path); bool r = p.match(m.text, 0, m.N);
	size_t e = path->at(4) >= 0 ? 4 + path->at(4) : 4; sx_check(r && at(p, 0, e), "file URL"); region_is(*path, e > 4, 4, e, "path");
	for (auto& y : { p.username, p.password, p.ipv4_host, p.ipv6_host, p.dns_host, p.port }) sx_check(!y->interval, "absent part"); sx_cover("file");
}
