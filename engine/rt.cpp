// Runtime support executed symbolically together with the code under test: the out-of-line parts of
// libc / libstdc++ the headers reach. Written without data-dependent branching where it matters.
#include "vp_pre.h"
#include <cstdint>
#include <string>
#include <locale>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <sstream>
#include <map>
#include <set>
#include <unordered_map>
#include <charconv>
#include <functional>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <system_error>
#include <variant>
#include <optional>
#include "model/vp_vfs.h"

extern "C" {
bool vp_is_const(long long v);
bool vp_is_small(long long v); // constant or of a few digits
bool vp_is_const_ld(long double v);
long vp_fmt_ld(char* out, long double v, int prec, int flags); // flags: 1 fixed 2 scientific
void vp_stub(const char*);
void vp_unsupported(const char*);
void vp_abort(const char*) __attribute__((noreturn));

// ------------------------------------------------------------ libc
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
void* vp_memchr(const void* s, int c, size_t n) __asm__("memchr");
void* vp_memchr(const void* s, int c, size_t n) { auto* p = (const unsigned char*)s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void*)p; return nullptr; }
char* vp_strchr(const char* s, int c) __asm__("strchr");
char* vp_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
int isspace(int c) { return (int)(c == 32) | (int)((unsigned)(c - 9) <= 4u); }
int isgraph(int c) { return (int)((unsigned)(c - 33) <= 93u); }
int isprint(int c) { return (int)((unsigned)(c - 32) <= 94u); }
int isdigit(int c) { return (int)((unsigned)(c - 48) <= 9u); }
int isupper(int c) { return (int)((unsigned)(c - 65) <= 25u); }
int islower(int c) { return (int)((unsigned)(c - 97) <= 25u); }
int isalpha(int c) { return (int)((unsigned)(c - 65) <= 25u) | (int)((unsigned)(c - 97) <= 25u); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int iscntrl(int c) { return (int)((unsigned)c <= 31u) | (int)(c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | (int)((unsigned)(c - 65) <= 5u) | (int)((unsigned)(c - 97) <= 5u); }
int tolower(int c) { return c + ((int)((unsigned)(c - 65) <= 25u) << 5); }
int toupper(int c) { return c - ((int)((unsigned)(c - 97) <= 25u) << 5); }
static int vp_errno;
int* __errno_location() { return &vp_errno; }
long long vp_conc(long long);
// scaling by a power of two: exact while the result is a normal number, otherwise by multiplication
long double vp_ldexpl(long double x, int e) __asm__("ldexpl");
long double vp_ldexpl(long double x, int e) {
	e = (int)vp_conc(e);
	struct B { unsigned long m; unsigned short se; } b; memcpy(&b, &x, 10);
	int ex = (int)vp_conc(b.se & 0x7fff);
	if (ex == 0x7fff || (ex == 0 && b.m == 0)) return x;
	if (ex > 0 && ex + e > 0 && ex + e < 0x7fff) { b.se = (unsigned short)((b.se & 0x8000) | (ex + e)); long double r; memcpy(&r, &b, 10); return r; }
	for (; e > 0; e -= 1000) x *= __builtin_bit_cast(double, (unsigned long)(1023 + (e < 1000 ? e : 1000)) << 52);
	for (; e < 0; e += 1000) x *= __builtin_bit_cast(double, (unsigned long)(1023 - (-e < 1000 ? -e : 1000)) << 52);
	return x;
}
double vp_ldexp(double x, int e) __asm__("ldexp");
double vp_ldexp(double x, int e) {
	e = (int)vp_conc(e); unsigned long b = __builtin_bit_cast(unsigned long, x); int ex = (int)vp_conc((long long)(b >> 52 & 0x7ff));
	if (ex == 0x7ff || (b << 1) == 0) return x;
	if (ex > 0 && ex + e > 0 && ex + e < 0x7ff) return __builtin_bit_cast(double, (b & ~(0x7fful << 52)) | (unsigned long)(ex + e) << 52);
	for (; e > 0; e -= 1000) x *= __builtin_bit_cast(double, (unsigned long)(1023 + (e < 1000 ? e : 1000)) << 52);
	for (; e < 0; e += 1000) x *= __builtin_bit_cast(double, (unsigned long)(1023 - (-e < 1000 ? -e : 1000)) << 52);
	return x;
}
float ldexpf(float x, int e) { return (float)vp_ldexp(x, e); }
long long vp_llroundl(long double x) __asm__("llroundl");
long long vp_llroundl(long double x) { return (long long)__builtin_roundl(x); }
long long vp_llround(double x) __asm__("llround");
long long vp_llround(double x) { return (long long)__builtin_round(x); }
long vp_lroundl(long double x) __asm__("lroundl");
long vp_lroundl(long double x) { return (long)__builtin_roundl(x); }
long vp_lround(double x) __asm__("lround");
long vp_lround(double x) { return (long)__builtin_round(x); }
void __assert_fail(const char* e, const char*, unsigned, const char*) { vp_abort("assertion in the code under test failed"); }
}
namespace std {
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { vp_abort("libstdc++ assertion"); }

// ------------------------------------------------------------ exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
static const char* vp_dup(const char* s, size_t n) { char* p = (char*)::operator new(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string& s) : _M_p(vp_dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(vp_dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define EXC(B) \
	B::B(const std::string& s) : _M_msg(s) {} \
	B::B(const char* s) : _M_msg(s, strlen(s)) {} \
	B::B(const B& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
	B& B::operator=(const B& o) noexcept { _M_msg = o._M_msg; return *this; } \
	B::~B() noexcept {} \
	const char* B::what() const noexcept { return _M_msg._M_p; }
EXC(logic_error)
EXC(runtime_error)
#define DER(D, B) D::D(const std::string& s) : B(s) {} D::D(const char* s) : B(s) {} D::~D() noexcept {}
DER(domain_error, logic_error)
DER(invalid_argument, logic_error)
DER(length_error, logic_error)
DER(out_of_range, logic_error)
DER(range_error, runtime_error)
DER(overflow_error, runtime_error)
DER(underflow_error, runtime_error)
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ------------------------------------------------------------ trees
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
	auto* y = x->_M_right; x->_M_right = y->_M_left;
	if (y->_M_left) y->_M_left->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
	y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
	auto* y = x->_M_left; x->_M_left = y->_M_right;
	if (y->_M_right) y->_M_right->_M_parent = x;
	y->_M_parent = x->_M_parent;
	if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
	y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
	_Rb_tree_node_base*& root = header._M_parent;
	x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
	if (left) {
		p->_M_left = x;
		if (p == &header) { header._M_parent = x; header._M_right = x; }
		else if (p == header._M_left) header._M_left = x;
	} else {
		p->_M_right = x;
		if (p == header._M_right) header._M_right = x;
	}
	while (x != root && x->_M_parent->_M_color == _S_red) {
		auto* xpp = x->_M_parent->_M_parent;
		if (x->_M_parent == xpp->_M_left) {
			auto* y = xpp->_M_right;
			if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
			else {
				if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
				x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
			}
		} else {
			auto* y = xpp->_M_left;
			if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
			else {
				if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
				x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
			}
		}
	}
	root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
	_Rb_tree_node_base*& root = header._M_parent; _Rb_tree_node_base*& leftmost = header._M_left; _Rb_tree_node_base*& rightmost = header._M_right;
	_Rb_tree_node_base* y = z; _Rb_tree_node_base* x = nullptr; _Rb_tree_node_base* xp = nullptr;
	if (!y->_M_left) x = y->_M_right;
	else if (!y->_M_right) x = y->_M_left;
	else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
	if (y != z) {
		z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
		if (y != z->_M_right) {
			xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
			y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
		} else xp = y;
		if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent;
		auto t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t;
		y = z;
	} else {
		xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
		if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
		if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto* q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
		if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto* q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } }
	}
	if (y->_M_color != _S_red) {
		while (x != root && (!x || x->_M_color == _S_black)) {
			if (x == xp->_M_left) {
				auto* w = xp->_M_right;
				if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
				if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else {
					if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
					w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black;
					rotl(xp, root); break;
				}
			} else {
				auto* w = xp->_M_left;
				if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
				if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else {
					if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
					w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black;
					rotr(xp, root); break;
				}
			}
		}
		if (x) x->_M_color = _S_black;
	}
	return y;
}
namespace __detail {
	size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
		static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731, 236897, 480881, 976369};
		for (size_t x : p) if (x >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = x; return x; }
		vp_unsupported("huge hash table");
		return 976369;
	}
	pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
		if (elt + ins > _M_next_resize) {
			size_t want = elt + ins; if (want < 11 && _M_next_resize == 0) want = 11;
			if (want >= bkt) { size_t g = bkt * 2; return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)}; }
			const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = bkt;
		}
		return {false, 0};
	}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }

// ------------------------------------------------------------ locale and ios
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { return *this; }
const locale& locale::classic() { static locale l; return l; }
bool locale::operator==(const locale&) const throw() { return true; }
string locale::name() const { return "C"; }

ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_move(ios_base& o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
void ios_base::_M_swap(ios_base& o) noexcept {
	auto sw = [](auto& a, auto& b) { auto t = a; a = b; b = t; };
	sw(_M_precision, o._M_precision); sw(_M_width, o._M_width); sw(_M_flags, o._M_flags); sw(_M_exception, o._M_exception); sw(_M_streambuf_state, o._M_streambuf_state);
}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { return l; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
bool ios_base::sync_with_stdio(bool) { return true; }
// fake character facet: identity widening, ASCII classification
alignas(ctype<char>) static char fakeCtype[sizeof(ctype<char>)];
static ctype_base::mask fakeTable[256];
template<> void basic_ios<char>::_M_cache_locale(const locale&) {
	_M_ctype = (const ctype<char>*)fakeCtype; _M_num_put = nullptr; _M_num_get = nullptr;
}
struct FakeBuf : streambuf {
	streamsize xsputn(const char*, streamsize n) override { return n; }
	int overflow(int c) override { return char_traits<char>::not_eof(c); }
};
static char outBuf[sizeof(FakeBuf)], inBuf[sizeof(stringbuf)];
extern char mcin[] __asm__("_ZSt3cin"); extern char mcout[] __asm__("_ZSt4cout"); extern char mcerr[] __asm__("_ZSt4cerr"); extern char mclog[] __asm__("_ZSt4clog");
alignas(16) char mcin[sizeof(istream)]; alignas(16) char mcout[sizeof(ostream)]; alignas(16) char mcerr[sizeof(ostream)]; alignas(16) char mclog[sizeof(ostream)];
struct StreamInit {
	StreamInit() {
		for (int i = 0; i < 256; i++) {
			unsigned m = 0;
			if (isspace(i)) m |= ctype_base::space; if (isdigit(i)) m |= ctype_base::digit; if (isalpha(i)) m |= ctype_base::alpha; if (isupper(i)) m |= ctype_base::upper;
			if (islower(i)) m |= ctype_base::lower; if (ispunct(i)) m |= ctype_base::punct; if (isprint(i)) m |= ctype_base::print; if (iscntrl(i)) m |= ctype_base::cntrl; if (isxdigit(i)) m |= ctype_base::xdigit;
			fakeTable[i] = (ctype_base::mask)m;
		}
		auto* c = (ctype<char>*)fakeCtype;
		c->_M_table = fakeTable; c->_M_widen_ok = 1; c->_M_narrow_ok = 1;
		for (int i = 0; i < 256; i++) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; }
		FakeBuf* b = new (outBuf) FakeBuf();
		new (mcout) ostream(b); new (mcerr) ostream(b); new (mclog) ostream(b);
		new (mcin) istream(new (inBuf) stringbuf());
	}
};
static StreamInit streamInit __attribute__((init_priority(101)));

// ------------------------------------------------------------ formatted output
static void pad(ostream& os, const char* s, size_t n) {
	streamsize w = os.width();
	os.width(0);
	streamsize k = w > (streamsize)n ? w - (streamsize)n : 0;
	bool left = (os.flags() & ios_base::adjustfield) == ios_base::left;
	char f = os.fill();
	if (!left) for (streamsize i = 0; i < k; i++) os.rdbuf()->sputc(f);
	os.rdbuf()->sputn(s, (streamsize)n);
	if (left) for (streamsize i = 0; i < k; i++) os.rdbuf()->sputc(f);
}
static ostream& putNum(ostream& os, unsigned long v, bool neg) {
	ostream::sentry ok(os);
	if (!ok) return os;
	char b[72]; int n = 0;
	auto base = os.flags() & ios_base::basefield;
	if (!vp_is_const((long long)v) && base == ios_base::hex) { // split by the number of digits
		int k = 1; while (k < 16 && (v >> (4 * k)) != 0) k++;
		char a = (os.flags() & ios_base::uppercase) ? 'A' : 'a';
		while (k--) { unsigned c = (unsigned)(v >> (4 * k) & 15); b[n++] = (char)(c + '0' + (0u - (unsigned)(c > 9) & (unsigned)(a - '0' - 10))); }
		pad(os, b, n); return os;
	}
	if (!vp_is_const((long long)v)) {
		vp_stub("formatting of a symbolic integer: opaque fixed-length token carrying the value");
		b[n++] = '\x01'; b[n++] = neg ? '-' : '+';
		for (int i = 0; i < 8; i++) b[n++] = (char)(v >> (8 * i));
		pad(os, b, n); return os;
	}
	char t[70]; int k = 0;
	unsigned long d = base == ios_base::hex ? 16 : base == ios_base::oct ? 8 : 10;
	bool up = (os.flags() & ios_base::uppercase) != 0;
	unsigned long x = v;
	do { unsigned c = (unsigned)(x % d); t[k++] = (char)(c < 10 ? '0' + c : (up ? 'A' : 'a') + (c - 10)); x /= d; } while (x);
	if (neg) b[n++] = '-';
	else if ((os.flags() & ios_base::showpos) && d == 10) b[n++] = '+';
	while (k) b[n++] = t[--k];
	pad(os, b, n);
	return os;
}
static ostream& putSigned(ostream& os, long v) {
	auto base = os.flags() & ios_base::basefield;
	if (base == ios_base::hex || base == ios_base::oct) return putNum(os, (unsigned long)v, false);
	if (!vp_is_const(v)) return putNum(os, (unsigned long)v, false);
	return v < 0 ? putNum(os, 0ul - (unsigned long)v, true) : putNum(os, (unsigned long)v, false);
}
template<> template<> ostream& ostream::_M_insert(long v) { return putSigned(*this, v); }
template<> template<> ostream& ostream::_M_insert(long long v) { return putSigned(*this, v); }
template<> template<> ostream& ostream::_M_insert(unsigned long v) { return putNum(*this, v, false); }
template<> template<> ostream& ostream::_M_insert(unsigned long long v) { return putNum(*this, v, false); }
template<> ostream& ostream::operator<<(int v) { auto base = flags() & ios_base::basefield; return base == ios_base::hex || base == ios_base::oct ? putNum(*this, (unsigned)v, false) : putSigned(*this, v); }
template<> ostream& ostream::operator<<(short v) { auto base = flags() & ios_base::basefield; return base == ios_base::hex || base == ios_base::oct ? putNum(*this, (unsigned short)v, false) : putSigned(*this, v); }
template<> template<> ostream& ostream::_M_insert(bool v) {
	if (!(flags() & ios_base::boolalpha)) return putNum(*this, v, false);
	ostream::sentry ok(*this);
	if (!ok) return *this;
	if (v) pad(*this, "true", 4); else pad(*this, "false", 5);
	return *this;
}
template<> template<> ostream& ostream::_M_insert(long double v) {
	ostream::sentry ok(*this);
	if (!ok) return *this;
	char b[5200]; int n = 0;
	if (!vp_is_const_ld(v)) {
		vp_stub("formatting of a symbolic real: opaque fixed-length token carrying the value");
		b[n++] = '\x02'; unsigned char r[16] = {0}; memcpy(r, &v, 10); for (int i = 0; i < 10; i++) b[n++] = (char)r[i]; b[n++] = (char)precision();
	} else {
		auto ff = flags() & ios_base::floatfield;
		n = (int)vp_fmt_ld(b, v, (int)precision(), ff == ios_base::fixed ? 1 : ff == ios_base::scientific ? 2 : 0);
	}
	pad(*this, b, n);
	return *this;
}
string vp_to_string_ld(long double v) __asm__("_ZNSt7__cxx119to_stringEe");
string vp_to_string_ld(long double v) {
	char b[5200]; int n = 0;
	if (!vp_is_const_ld(v)) {
		vp_stub("formatting of a symbolic real: opaque fixed-length token carrying the value");
		b[n++] = '\x02'; unsigned char r[16] = {0}; memcpy(r, &v, 10); for (int i = 0; i < 10; i++) b[n++] = (char)r[i]; b[n++] = 6;
	} else n = (int)vp_fmt_ld(b, v, 6, 1);
	return string(b, (size_t)n);
}
string vp_to_string_d(double v) __asm__("_ZNSt7__cxx119to_stringEd");
string vp_to_string_d(double v) { return vp_to_string_ld(v); }
string vp_to_string_f(float v) __asm__("_ZNSt7__cxx119to_stringEf");
string vp_to_string_f(float v) { return vp_to_string_ld(v); }
template<> template<> ostream& ostream::_M_insert(double v) { return _M_insert((long double)v); }
template<> template<> ostream& ostream::_M_insert(const void* v) { ostream::sentry ok(*this); if (ok) pad(*this, "0xPTR", 5); return *this; }

// ------------------------------------------------------------ formatted input
template<> istream& ws(istream& is) {
	streambuf* sb = is.rdbuf();
	int c = sb->sgetc();
	while (c != EOF && isspace(c)) c = sb->snextc();
	if (c == EOF) is.setstate(ios_base::eofbit);
	return is;
}
template<> istream& operator>>(istream& is, string& s) {
	istream::sentry ok(is, false);
	streamsize got = 0; ios_base::iostate err = ios_base::goodbit;
	if (ok) {
		s.erase();
		streamsize w = is.width();
		streambuf* sb = is.rdbuf();
		int c = sb->sgetc();
		while (c != EOF && !isspace(c) && (w <= 0 || got < w)) { s.push_back((char)c); got++; c = sb->snextc(); }
		if (c == EOF) err |= ios_base::eofbit;
		is.width(0);
	}
	if (!got) err |= ios_base::failbit;
	if (err) is.setstate(err);
	return is;
}
template<> istream& getline(istream& is, string& s, char d) {
	istream::sentry ok(is, true);
	streamsize got = 0; ios_base::iostate err = ios_base::goodbit;
	if (ok) {
		s.erase();
		streambuf* sb = is.rdbuf();
		int c = sb->sgetc();
		while (c != EOF && c != (unsigned char)d) { s.push_back((char)c); got++; c = sb->snextc(); }
		if (c == EOF) err |= ios_base::eofbit; else { got++; sb->sbumpc(); }
	}
	if (!got) err |= ios_base::failbit;
	if (err) is.setstate(err);
	return is;
}
template<> istream& istream::ignore(streamsize n) { for (; n > 0; n--) { if (rdbuf()->sbumpc() == EOF) { setstate(eofbit); break; } } return *this; }
template<> istream& istream::ignore(streamsize n, int d) { for (; n > 0; n--) { int c = rdbuf()->sbumpc(); if (c == EOF) { setstate(eofbit); break; } if (c == d) break; } return *this; }
static bool getNum(istream& is, bool sgn, unsigned long& out, long lo, long hi) {
	istream::sentry ok(is, false);
	if (!ok) return false;
	streambuf* sb = is.rdbuf();
	int c = sb->sgetc(); bool neg = false;
	if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); }
	int n = 0; unsigned long v = 0; bool over = false;
	while (isdigit(c)) { if (v > (~0ul - 9) / 10) over = true; v = v * 10 + (unsigned long)(c - '0'); n++; c = sb->snextc(); }
	if (c == EOF) is.setstate(ios_base::eofbit);
	if (!n) { out = 0; is.setstate(ios_base::failbit); return true; }
	if (sgn) {
		if (over || v > (unsigned long)hi + (neg ? 1 : 0)) { out = neg ? (unsigned long)lo : (unsigned long)hi; is.setstate(ios_base::failbit); return true; }
	} else if (over) { out = ~0ul; is.setstate(ios_base::failbit); return true; }
	out = neg ? 0 - v : v;
	return true;
}
template<> istream& istream::operator>>(int& v) { unsigned long x; if (getNum(*this, true, x, INT32_MIN, INT32_MAX)) v = (int)x; return *this; }
template<> template<> istream& istream::_M_extract(long& v) { unsigned long x; if (getNum(*this, true, x, INT64_MIN, INT64_MAX)) v = (long)x; return *this; }
template<> template<> istream& istream::_M_extract(unsigned long& v) { unsigned long x; if (getNum(*this, false, x, 0, 0)) v = x; return *this; }

// ------------------------------------------------------------ reals
// model of from_chars for long double, general format: [-]digits[.digits][(e|E)[+-]digits], inf, nan.
// Exact for at most 19 significant digits and |decimal exponent| <= 27 (one correctly rounded operation).
from_chars_result from_chars(const char* b, const char* e, long double& out, chars_format) noexcept {
	vp_stub("std::from_chars(long double): decimal model, one correctly rounded operation m*10^k or m/10^k, at most 18 digits, |k| <= 27");
	const char* p = b;
	bool neg = p != e && *p == '-';
	if (neg) p++;
	if (p != e && (*p == 'i' || *p == 'I' || *p == 'n' || *p == 'N')) vp_unsupported("from_chars inf/nan");
	unsigned long m = 0; int digs = 0, frac = 0; bool any = false;
	while (p != e && isdigit((unsigned char)*p)) { m = m * 10 + (unsigned long)(*p - '0'); digs++; any = true; p++; }
	if (p != e && *p == '.') {
		const char* q = p + 1;
		bool anyf = false;
		while (q != e && isdigit((unsigned char)*q)) { m = m * 10 + (unsigned long)(*q - '0'); digs++; frac++; anyf = true; q++; }
		if (any || anyf) p = q;
		any = any || anyf;
	}
	if (!any) return {b, errc::invalid_argument};
	if (digs > 18) vp_unsupported("from_chars with more than 18 digits");
	int ex = 0;
	if (p != e && (*p == 'e' || *p == 'E')) {
		const char* q = p + 1; bool en = false; bool anye = false;
		if (q != e && (*q == '+' || *q == '-')) { en = *q == '-'; q++; }
		int x = 0;
		while (q != e && isdigit((unsigned char)*q)) { if (x < 100000) x = x * 10 + (*q - '0'); anye = true; q++; }
		if (anye) { p = q; ex = en ? -x : x; }
	}
	int k = ex - frac;
	long double r = (long double)m;
	if (m != 0) {
		if (k > 5000) return {p, errc::result_out_of_range};
		if (k < -5050) return {p, errc::result_out_of_range};
		if (k > 27 || k < -27) vp_unsupported("from_chars with a large exponent");
		long double t = 1; for (int i = 0; i < (k < 0 ? -k : k); i++) t *= 10;
		if (k > 0) r = r * t; else if (k < 0) r = r / t;
	}
	out = neg ? -r : r;
	return {p, errc()};
}
}
// ------------------------------------------------------------ files
namespace vp_vfs {
	File* files = nullptr;
	File* find(const std::string& n) { for (File* f = files; f; f = f->next) if (f->name == n) return f; return nullptr; }
	File* create(const std::string& n) { vp_stub("file system: in-memory files"); File* f = find(n); if (!f) { f = new File(); f->name = n; f->next = files; files = f; } f->data.clear(); return f; }
	bool erase(const std::string& n) { for (File** f = &files; *f; f = &(*f)->next) if ((*f)->name == n) { *f = (*f)->next; return true; } return false; }
}

#include <list>
namespace std { namespace __detail {
	void _List_node_base::_M_hook(_List_node_base* p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
	void _List_node_base::_M_unhook() noexcept { auto* n = this->_M_next; auto* p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
	void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
		if (this == l) return;
		l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
		auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
	}
} }

namespace std {
// std::to_string: numbers of few digits are written out, other symbolic ones become an opaque token
static string decimal(unsigned long x, bool neg) {
	string r;
	if (!vp_is_small((long long)x)) {
		vp_stub("std::to_string of a symbolic integer: opaque fixed-length token carrying the value");
		r += '\x01'; r += neg ? '-' : '+'; for (int i = 0; i < 8; i++) r += (char)(x >> (8 * i));
		return r;
	}
	char t[24]; int k = 0; do { t[k++] = (char)('0' + x % 10); x /= 10; } while (x);
	if (neg) r += '-';
	while (k) r += t[--k];
	return r;
}
string vp_to_string_l(long v) asm("_ZNSt7__cxx119to_stringEl");
string vp_to_string_l(long v) { if (!vp_is_small(v)) return decimal((unsigned long)v, false); return v < 0 ? decimal(0ul - (unsigned long)v, true) : decimal((unsigned long)v, false); }
string vp_to_string_m(unsigned long v) asm("_ZNSt7__cxx119to_stringEm");
string vp_to_string_m(unsigned long v) { return decimal(v, false); }
}
