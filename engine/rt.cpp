// Run-time library of the symbolic engine: models of the libstdc++/libc pieces that live in shared
// libraries (and are therefore not part of the encoded code).  C locale throughout.
#include "sx.h"
#include <stdarg.h>
#include <errno.h>
#include <wchar.h>
#include <wctype.h>
#include <stdlib.h>
#include <time.h>
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <system_error>
#include <locale>
#include <list>
#include <map>
#include <set>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <functional>
#include <memory>
#include <vector>

// ---- strings -----------------------------------------------------------------------------
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
template class std::basic_string<char16_t>;
template class std::basic_string<char32_t>;
template class std::allocator<char>;
template class std::allocator<wchar_t>;

#define RT extern "C" __attribute__((used, noinline))
RT size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
RT size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
RT size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
extern "C" void* memchr_rt(const void* s, int c, size_t n) asm("memchr");
__attribute__((used, noinline)) void* memchr_rt(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void*)p; return nullptr; }
extern "C" wchar_t* wmemchr_rt(const wchar_t* s, wchar_t c, size_t n) asm("wmemchr");
__attribute__((used, noinline)) wchar_t* wmemchr_rt(const wchar_t* s, wchar_t c, size_t n) { for (; n; n--, s++) if (*s == c) return (wchar_t*)s; return nullptr; }
RT int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
RT wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
extern "C" char* strchr_rt(const char* s, int c) asm("strchr");
__attribute__((used, noinline)) char* strchr_rt(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
RT int strcmp(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
RT int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
RT int wcscmp(const wchar_t* a, const wchar_t* b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
RT char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
RT char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
RT int strcoll(const char* a, const char* b) { return strcmp(a, b); }
RT int wcscoll(const wchar_t* a, const wchar_t* b) { return wcscmp(a, b); }
RT int strcoll_l(const char* a, const char* b, locale_t) { return strcmp(a, b); }
RT int wcscoll_l(const wchar_t* a, const wchar_t* b, locale_t) { return wcscmp(a, b); }

// ---- errno, locale, ctype ------------------------------------------------------------------
static int rt_errno;
RT int* __errno_location() noexcept { return &rt_errno; }
static char rt_locale[8];
RT locale_t (newlocale_rt)(int, const char*, locale_t) asm("newlocale");
RT locale_t (newlocale_rt)(int, const char*, locale_t) { return (locale_t)rt_locale; }
RT locale_t duplocale(locale_t) noexcept { return (locale_t)rt_locale; }
RT void freelocale(locale_t) noexcept {}
RT locale_t uselocale(locale_t) noexcept { return (locale_t)rt_locale; }

static constexpr unsigned short rt_mask(int c)
{
	typedef std::ctype_base B;
	unsigned short m = 0;
	bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9';
	if (up) m |= B::upper; if (lo) m |= B::lower; if (up || lo) m |= B::alpha;
	if (di) m |= B::digit; if (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= B::xdigit;
	if (c == ' ' || (c >= 9 && c <= 13)) m |= B::space; if (c == ' ' || c == 9) m |= B::blank;
	if (c >= 32 && c < 127) m |= B::print;
	if (c > 32 && c < 127 && !(up || lo || di)) m |= B::punct; // alnum and graph are unions of these
	if (c < 32 || c == 127) m |= B::cntrl;
	return m;
}
struct rt_table { unsigned short t[384]; int lo[384], up[384]; };
static constexpr rt_table rt_make() { rt_table r{}; for (int i = 0; i < 384; i++) { int c = i - 128; r.t[i] = c >= 0 && c < 256 ? rt_mask(c) : 0; r.lo[i] = c >= 'A' && c <= 'Z' ? c + 32 : c; r.up[i] = c >= 'a' && c <= 'z' ? c - 32 : c; } return r; }
static constexpr rt_table rt_ct = rt_make();
static const unsigned short* rt_b = rt_ct.t + 128;
static const int* rt_lo = rt_ct.lo + 128;
static const int* rt_up = rt_ct.up + 128;
RT const unsigned short** __ctype_b_loc() noexcept { return &rt_b; }
RT const int** __ctype_tolower_loc() noexcept { return &rt_lo; }
RT const int** __ctype_toupper_loc() noexcept { return &rt_up; }
#define CT(n, m) RT int is##n(int c) noexcept { return c >= 0 && c < 256 && (rt_mask(c) & std::ctype_base::m) != 0; } \
	RT int isw##n(wint_t c) noexcept { return c < 128 && (rt_mask((int)c) & std::ctype_base::m) != 0; } \
	RT int is##n##_l(int c, locale_t) noexcept { return is##n(c); } \
	RT int isw##n##_l(wint_t c, locale_t) noexcept { return isw##n(c); }
#undef isspace
CT(space, space) CT(alpha, alpha) CT(digit, digit) CT(xdigit, xdigit) CT(upper, upper) CT(lower, lower) CT(alnum, alnum) CT(punct, punct) CT(print, print) CT(cntrl, cntrl) CT(graph, graph) CT(blank, blank)
RT int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
RT int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
RT int tolower_l(int c, locale_t) noexcept { return tolower(c); }
RT int toupper_l(int c, locale_t) noexcept { return toupper(c); }
RT wint_t towlower(wint_t c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
RT wint_t towupper(wint_t c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
RT wint_t towlower_l(wint_t c, locale_t) noexcept { return towlower(c); }
RT wint_t towupper_l(wint_t c, locale_t) noexcept { return towupper(c); }

struct rt_locale_impl { int refs; void** pfacets; size_t size; void* facets[4]; }; // as std::locale::_Impl begins
static void* rt_impl();
extern std::locale::id rt_id_collate_c asm("_ZNSt7__cxx117collateIcE2idE"), rt_id_collate_w asm("_ZNSt7__cxx117collateIwE2idE");
std::locale::id rt_id_collate_c, rt_id_collate_w;
namespace std {
	locale::facet::~facet() {}
	locale::locale() noexcept : _M_impl((_Impl*)rt_impl()) {}
	locale::locale(const locale&) noexcept : _M_impl((_Impl*)rt_impl()) {}
	locale::locale(const char*) : _M_impl((_Impl*)rt_impl()) {}
	locale::~locale() noexcept {}
	size_t locale::id::_M_id() const throw() { return this == &std::ctype<wchar_t>::id ? 1 : this == &rt_id_collate_c ? 2 : this == &rt_id_collate_w ? 3 : 0; }
	const locale& locale::operator=(const locale&) noexcept { return *this; }
	const locale& locale::classic() { static void* c; c = rt_impl(); return *(const locale*)&c; }
	bool locale::operator==(const locale&) const noexcept { return true; }
	locale::id ctype<char>::id;
	locale::id ctype<wchar_t>::id;
	const size_t ctype<char>::table_size;

	ctype<char>::ctype(const mask* t, bool, size_t refs) : facet(refs), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(rt_up), _M_tolower(rt_lo), _M_table(t ? t : rt_b), _M_widen_ok(0), _M_narrow_ok(0) {}
	ctype<char>::~ctype() {}
	char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
	char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	const char* ctype<char>::do_toupper(char* b, const char* e) const { for (; b < e; b++) *b = do_toupper(*b); return e; }
	const char* ctype<char>::do_tolower(char* b, const char* e) const { for (; b < e; b++) *b = do_tolower(*b); return e; }

	ctype<wchar_t>::ctype(size_t refs) : __ctype_abstract_base<wchar_t>(refs), _M_c_locale_ctype(nullptr), _M_narrow_ok(false) {}
	ctype<wchar_t>::~ctype() {}
	bool ctype<wchar_t>::do_is(mask m, wchar_t c) const { return c >= 0 && c < 128 && (rt_mask(c) & m) != 0; }
	const wchar_t* ctype<wchar_t>::do_is(const wchar_t* b, const wchar_t* e, mask* v) const { for (; b < e; b++, v++) *v = *b >= 0 && *b < 128 ? rt_mask(*b) : 0; return e; }
	const wchar_t* ctype<wchar_t>::do_scan_is(mask m, const wchar_t* b, const wchar_t* e) const { while (b < e && !do_is(m, *b)) b++; return b; }
	const wchar_t* ctype<wchar_t>::do_scan_not(mask m, const wchar_t* b, const wchar_t* e) const { while (b < e && do_is(m, *b)) b++; return b; }
	wchar_t ctype<wchar_t>::do_toupper(wchar_t c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
	wchar_t ctype<wchar_t>::do_tolower(wchar_t c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	const wchar_t* ctype<wchar_t>::do_toupper(wchar_t* b, const wchar_t* e) const { for (; b < e; b++) *b = do_toupper(*b); return e; }
	const wchar_t* ctype<wchar_t>::do_tolower(wchar_t* b, const wchar_t* e) const { for (; b < e; b++) *b = do_tolower(*b); return e; }
	wchar_t ctype<wchar_t>::do_widen(char c) const { return (unsigned char)c; }
	const char* ctype<wchar_t>::do_widen(const char* b, const char* e, wchar_t* d) const { for (; b < e; b++) *d++ = do_widen(*b); return e; }
	char ctype<wchar_t>::do_narrow(wchar_t c, char d) const { return c >= 0 && c < 128 ? (char)c : d; }
	const wchar_t* ctype<wchar_t>::do_narrow(const wchar_t* b, const wchar_t* e, char dflt, char* d) const { for (; b < e; b++) *d++ = do_narrow(*b, dflt); return e; }
	template<> __ctype_abstract_base<wchar_t>::~__ctype_abstract_base() {}
}
static std::ctype<char>& rt_cc() { static union U { std::ctype<char> v; U() : v(nullptr, false, 1) {} ~U() {} } u; return u.v; }
static std::ctype<wchar_t>& rt_cw() { static union U { std::ctype<wchar_t> v; U() : v(1) {} ~U() {} } u; return u.v; }
// collation in the C locale: by code units; laid out as std::collate
template <class T, class U> struct rt_collate {
	virtual ~rt_collate() {}
	virtual int do_compare(const T* a, const T* ae, const T* b, const T* be) const { for (; a < ae && b < be; ++a, ++b) if (*a != *b) return (U)*a < (U)*b ? -1 : 1; return a < ae ? 1 : b < be ? -1 : 0; }
	virtual void do_transform() const { sx_fail("std::collate::transform is not modelled"); }
	virtual void do_hash() const { sx_fail("std::collate::hash is not modelled"); }
};
template <class T, class U> static void* rt_co() { static union W { rt_collate<T, U> v; W() : v() {} ~W() {} } w; return &w; }
static void* rt_impl() { static rt_locale_impl i; if (!i.size) { i.refs = 1; i.facets[0] = &rt_cc(); i.facets[1] = &rt_cw(); i.facets[2] = rt_co<char, unsigned char>(); i.facets[3] = rt_co<wchar_t, int>(); i.pfacets = i.facets; i.size = 4; } return &i; }
RT const std::ctype<char>& rt_use_c(const std::locale&) asm("_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale");
RT const std::ctype<char>& rt_use_c(const std::locale&) { return rt_cc(); }
RT const std::ctype<wchar_t>& rt_use_w(const std::locale&) asm("_ZSt9use_facetISt5ctypeIwEERKT_RKSt6locale");
RT const std::ctype<wchar_t>& rt_use_w(const std::locale&) { return rt_cw(); }

// ---- exceptions ----------------------------------------------------------------------------
namespace std {
	exception::~exception() noexcept {}
	const char* exception::what() const noexcept { return "exception"; }
	bad_exception::~bad_exception() noexcept {}
	const char* bad_exception::what() const noexcept { return "bad exception"; }
	bad_alloc::~bad_alloc() noexcept {}
	const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {}
	const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {}
	const char* bad_cast::what() const noexcept { return "bad_cast"; }
	bad_function_call::~bad_function_call() noexcept {}
	const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

	__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); __builtin_memcpy(p, s, n); p[n] = 0; _M_p = p; }
	__cow_string::__cow_string() { char* p = (char*)malloc(1); *p = 0; _M_p = p; }
	__cow_string::__cow_string(const std::string& s) : __cow_string(s.data(), s.size()) {}
	__cow_string::__cow_string(const __cow_string& o) noexcept : __cow_string(o._M_p, strlen(o._M_p)) {}
	__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); size_t n = strlen(o._M_p); char* p = (char*)malloc(n + 1); __builtin_memcpy(p, o._M_p, n + 1); _M_p = p; } return *this; }
	__cow_string::~__cow_string() { free((void*)_M_p); }
	__cow_string::__cow_string(__cow_string&& o) noexcept : __cow_string((const __cow_string&)o) {}
	__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }

#define EXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
	logic_error::logic_error(const string& s) : _M_msg(s.data(), s.size()) {}
	logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
	logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
	logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
	logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error::~logic_error() noexcept {}
	const char* logic_error::what() const noexcept { return _M_msg._M_p; }
	runtime_error::runtime_error(const string& s) : _M_msg(s.data(), s.size()) {}
	runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
	runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
	runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
	runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
	runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
	runtime_error::~runtime_error() noexcept {}
	const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
	EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
	EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)

	void __throw_bad_exception() { throw bad_exception(); }
	void __throw_bad_alloc() { throw bad_alloc(); }
	void __throw_bad_array_new_length() { throw bad_array_new_length(); }
	void __throw_bad_cast() { throw bad_cast(); }
	void __throw_logic_error(const char* s) { throw logic_error(s); }
	void __throw_domain_error(const char* s) { throw domain_error(s); }
	void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
	void __throw_length_error(const char* s) { throw length_error(s); }
	void __throw_out_of_range(const char* s) { throw out_of_range(s); }
	void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
	void __throw_runtime_error(const char* s) { throw runtime_error(s); }
	void __throw_range_error(const char* s) { throw range_error(s); }
	void __throw_overflow_error(const char* s) { throw overflow_error(s); }
	void __throw_underflow_error(const char* s) { throw underflow_error(s); }
	void __throw_bad_function_call() { throw bad_function_call(); }
	void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }

	// system_error
	error_category::~error_category() noexcept {}
	error_condition error_category::default_error_condition(int e) const noexcept { return error_condition(e, *this); }
	bool error_category::equivalent(int e, const error_condition& c) const noexcept { return default_error_condition(e) == c; }
	bool error_category::equivalent(const error_code& c, int e) const noexcept { return *this == c.category() && c.value() == e; }
	__cow_string error_category::_M_message(int) const { return __cow_string(); }
	system_error::~system_error() noexcept {}
	struct rt_category : error_category {
		const char* name() const noexcept override { return "system"; }
		string message(int) const override { return "error"; }
	};
	static union rt_catu { rt_category c; rt_catu() : c() {} ~rt_catu() {} } rt_cat1, rt_cat2;
	inline namespace _V2 {
		const error_category& system_category() noexcept { return rt_cat1.c; }
		const error_category& generic_category() noexcept { return rt_cat2.c; }
	}
}
RT void sx_throw_bad_alloc() { throw std::bad_alloc(); }
RT int __gxx_personality_v0(...) { return 0; }

// ---- std::list, std::map/set -----------------------------------------------------------------
namespace std {
	namespace __detail {
		void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
		void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept
		{
			if (this != last) {
				last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
				_List_node_base* t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
			}
		}
		void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
		void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
		{
			bool xe = x._M_next == &x, ye = y._M_next == &y;
			_List_node_base xo = x, yo = y;
			if (ye) x._M_next = x._M_prev = &x; else { x = yo; x._M_next->_M_prev = &x; x._M_prev->_M_next = &x; }
			if (xe) y._M_next = y._M_prev = &y; else { y = xo; y._M_next->_M_prev = &y; y._M_prev->_M_next = &y; }
		}
	}
	// An unbalanced binary search tree has the same observable behaviour as the red-black one.
	static _Rb_tree_node_base* rt_inc(_Rb_tree_node_base* x)
	{
		if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
		else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
		return x;
	}
	static _Rb_tree_node_base* rt_dec(_Rb_tree_node_base* x)
	{
		if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right;
		else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; }
		else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
		return x;
	}
	_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rt_inc(x); }
	const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rt_inc(const_cast<_Rb_tree_node_base*>(x)); }
	_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rt_dec(x); }
	const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rt_dec(const_cast<_Rb_tree_node_base*>(x)); }
	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
	{
		x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
		if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
		else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
		// the header stays red, nodes black: that is all rt_dec needs
	}
	_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
	{
		if (h._M_left == z) h._M_left = rt_inc(z);
		if (h._M_right == z) h._M_right = rt_dec(z);
		auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
			if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
			if (b) b->_M_parent = a->_M_parent;
		};
		if (!z->_M_left) replace(z, z->_M_right);
		else if (!z->_M_right) replace(z, z->_M_left);
		else {
			_Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
			if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
			replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
		}
		if (!h._M_parent) { h._M_left = h._M_right = &h; }
		return z;
	}
}

// ---- threads and time --------------------------------------------------------------------------
static void rt_thread_main(void* p) { std::thread::_State_ptr st((std::thread::_State*)p); st->_M_run(); }
namespace std {
	thread::_State::~_State() {}
	void thread::_M_start_thread(_State_ptr st, void (*)()) { uint64_t t = sx_thread_create(rt_thread_main, st.release()); __builtin_memcpy(&_M_id, &t, sizeof(t)); }
	void thread::join() { uint64_t t; __builtin_memcpy(&t, &_M_id, sizeof(t)); if (!joinable()) throw system_error(error_code(22, generic_category())); sx_thread_join(t); _M_id = id(); }
	void thread::detach() { _M_id = id(); }
	unsigned thread::hardware_concurrency() noexcept { return 2; }
	condition_variable::condition_variable() noexcept {}
	condition_variable::~condition_variable() noexcept {}
	void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
	void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
	void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
	namespace chrono {
		inline namespace _V2 {
			system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_now())); }
			steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_now())); }
		}
	}
	namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds n) { sx_advance((uint64_t)s.count() * 1000000000u + (uint64_t)n.count()); sched_yield(); } }
}
RT int nanosleep(const struct timespec* t, struct timespec*) { sx_advance((uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec); sched_yield(); return 0; }
RT int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { sx_advance((uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec); sched_yield(); return 0; }
RT int clock_gettime(clockid_t, struct timespec* t) noexcept { uint64_t n = sx_now(); t->tv_sec = n / 1000000000u; t->tv_nsec = n % 1000000000u; return 0; }
RT unsigned __gthread_dummy() { return 0; }
RT pthread_t pthread_self() noexcept { return sx_thread_self() + 1; }
RT int pthread_once(pthread_once_t* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }

// ---- formatted output ----------------------------------------------------------------------------
template <class T> static int rt_fmt(T* out, size_t size, const T* f, va_list ap)
{
	size_t n = 0;
	auto put = [&](T c) { if (n + 1 < size) out[n] = c; n++; };
	for (; *f; f++) {
		if (*f != '%') { put(*f); continue; }
		f++;
		bool minus = false, zero = false, plus = false, alt = false, space = false;
		for (;; f++) { if (*f == '-') minus = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
		int width = 0, prec = -1;
		if (*f == '*') { width = va_arg(ap, int); if (width < 0) { minus = true; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (int)(*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (int)(*f++ - '0'); }
		int l = 0; bool hh = false, h = false;
		for (;; f++) { if (*f == 'l') l++; else if (*f == 'z' || *f == 'j' || *f == 't') l = 2; else if (*f == 'h') { if (h) hh = true; h = true; } else break; }
		char buf[80]; int len = 0; unsigned long long u; bool neg = false;
		switch (*f) {
		case '%': put('%'); continue;
		case 'c': {
			T c = (T)va_arg(ap, int);
			if (!minus) for (int i = 1; i < width; i++) put(' ');
			put(c);
			if (minus) for (int i = 1; i < width; i++) put(' ');
			continue;
		}
		case 's': case 'S': {
			if (l || *f == 'S') {
				const wchar_t* s = va_arg(ap, const wchar_t*);
				if (!s) s = L"(null)";
				int sl = 0; while ((prec < 0 || sl < prec) && s[sl]) sl++;
				if (!minus) for (int i = sl; i < width; i++) put(' ');
				if (sizeof(T) == 1) for (int i = 0; i < sl; i++) if ((unsigned)s[i] > 0x7f) { errno = EILSEQ; return -1; } // the C locale
				for (int i = 0; i < sl; i++) put((T)s[i]);
				if (minus) for (int i = sl; i < width; i++) put(' ');
			} else {
				const char* s = va_arg(ap, const char*);
				if (!s) s = "(null)";
				int sl = 0; while ((prec < 0 || sl < prec) && s[sl]) sl++;
				if (!minus) for (int i = sl; i < width; i++) put(' ');
				for (int i = 0; i < sl; i++) put((T)(unsigned char)s[i]);
				if (minus) for (int i = sl; i < width; i++) put(' ');
			}
			continue;
		}
		case 'd': case 'i': {
			long long v = l >= 1 ? va_arg(ap, long long) : va_arg(ap, int);
			if (hh) v = (signed char)v; else if (h) v = (short)v;
			neg = v < 0; u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v;
			do { buf[len++] = (char)('0' + u % 10); u /= 10; } while (u);
			break;
		}
		case 'u': case 'x': case 'X': case 'o': {
			u = l >= 1 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
			if (hh) u = (unsigned char)u; else if (h) u = (unsigned short)u;
			unsigned base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16;
			const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
			bool nz = u != 0;
			if (base == 16 && zero && width > 0 && width <= 16 && !alt && !minus && prec < 0 && !plus && !space && (width == 16 || !(u >> (4 * width)))) {
				// as many digits as the width, whatever the value
				while (width) { unsigned d = (unsigned)(u >> (4 * --width)) & 15; put((T)(d + '0' + ((0u - ((9 - d) >> 31)) & (unsigned)(*f - 'x' + 'a' - 10 - '0')))); }
				continue;
			}
			do { buf[len++] = dg[u % base]; u /= base; } while (u);
			if (alt && base == 16 && nz) { buf[len++] = (char)*f; buf[len++] = '0'; }
			break;
		}
		case 'p': { u = (unsigned long long)va_arg(ap, void*); do { buf[len++] = "0123456789abcdef"[u % 16]; u /= 16; } while (u); buf[len++] = 'x'; buf[len++] = '0'; break; }
		default: errno = EINVAL; return -1;
		}
		char sign = neg ? '-' : plus ? '+' : space ? ' ' : 0;
		int zeros = prec > len ? prec - len : 0, tot = len + zeros + (sign ? 1 : 0);
		if (zero && !minus && prec < 0 && width > tot) { zeros += width - tot; tot = width; }
		if (!minus) for (int i = tot; i < width; i++) put(' ');
		if (sign) put(sign);
		while (zeros-- > 0) put('0');
		while (len) put((T)buf[--len]);
		if (minus) for (int i = tot; i < width; i++) put(' ');
	}
	if (size) out[n < size ? n : size - 1] = 0;
	return (int)n;
}
RT int vsnprintf(char* o, size_t n, const char* f, va_list ap) noexcept { return rt_fmt(o, n, f, ap); }
RT int snprintf(char* o, size_t n, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = rt_fmt(o, n, f, ap); va_end(ap); return r; }
RT int sprintf(char* o, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = rt_fmt(o, (size_t)1 << 30, f, ap); va_end(ap); return r; }
RT int vswprintf(wchar_t* o, size_t n, const wchar_t* f, va_list ap) noexcept { int r = rt_fmt(o, n, f, ap); if (r >= 0 && (size_t)r >= n) { if ((size_t)r > n) errno = E2BIG; return -1; } return r; } // glibc 2.39 sets no error when just the terminator does not fit
RT int swprintf(wchar_t* o, size_t n, const wchar_t* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vswprintf(o, n, f, ap); va_end(ap); return r; }
