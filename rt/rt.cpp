// Models of the out-of-line parts of libstdc++ and libc that the encoded code
// calls. Compiled to bitcode and linked into every encoding (never into the
// native replay, which uses the real libraries).
#include <bits/stl_tree.h>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwctype>
#include <exception>
#include <functional>
#include <ios>
#include <istream>
#include <list>
#include <locale>
#include <new>
#include <ostream>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>

// ---- exceptions ---------------------------------------------------------
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static char* dupz(const char* s) {
    size_t n = strlen(s);
    char*  p = (char*)malloc(n + 1);
    memcpy(p, s, n + 1);
    return p;
}
struct __cow_layout { char* p; };
__cow_string::__cow_string() { ((__cow_layout*)this)->p = dupz(""); }
__cow_string::__cow_string(const string& s) {
    size_t n = s.size();
    char*  p = (char*)malloc(n + 1);
    memcpy(p, s.data(), n);
    p[n] = 0;
    ((__cow_layout*)this)->p = p;
}
__cow_string::__cow_string(const char* s, size_t n) {
    char* p = (char*)malloc(n + 1);
    memcpy(p, s, n);
    p[n]                     = 0;
    ((__cow_layout*)this)->p = p;
}
__cow_string::__cow_string(const __cow_string& o) noexcept { ((__cow_layout*)this)->p = dupz(((__cow_layout const*)&o)->p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
    char* q = dupz(((__cow_layout const*)&o)->p);
    free(((__cow_layout*)this)->p);
    ((__cow_layout*)this)->p = q;
    return *this;
}
__cow_string::~__cow_string() { free(((__cow_layout*)this)->p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { ((__cow_layout*)this)->p = ((__cow_layout*)&o)->p; ((__cow_layout*)&o)->p = dupz(""); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { char* t = ((__cow_layout*)this)->p; ((__cow_layout*)this)->p = ((__cow_layout*)&o)->p; ((__cow_layout*)&o)->p = t; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return ((__cow_layout const*)&_M_msg)->p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return ((__cow_layout const*)&_M_msg)->p; }
#define LERR(T, B) \
    T::T(const string& s) : B(s) {} \
    T::T(const char* s) : B(s) {} \
    T::~T() noexcept {}
LERR(domain_error, logic_error)
LERR(invalid_argument, logic_error)
LERR(length_error, logic_error)
LERR(out_of_range, logic_error)
LERR(range_error, runtime_error)
LERR(overflow_error, runtime_error)
LERR(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

// ---- red-black tree: same interface, no rebalancing ----------------------
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color              = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o) h._M_parent = n;
        else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
        else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    _Rb_tree_node_base *newLeft = h._M_left, *newRight = h._M_right;
    if (h._M_left == z) {
        if (!z->_M_right) newLeft = z->_M_parent;
        else { newLeft = z->_M_right; while (newLeft->_M_left) newLeft = newLeft->_M_left; }
    }
    if (h._M_right == z) {
        if (!z->_M_left) newRight = z->_M_parent;
        else { newRight = z->_M_left; while (newRight->_M_right) newRight = newRight->_M_right; }
    }
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right) {
            replace(y, y->_M_right);
            y->_M_right            = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left            = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    h._M_left  = newLeft;
    h._M_right = newRight;
    return z;
}
unsigned int _Rb_tree_black_count(const _Rb_tree_node_base*, const _Rb_tree_node_base*) throw() { return 0; }

// ---- list ----------------------------------------------------------------
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
        _List_node_base* const t = _M_prev;
        _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* t = this;
    do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ---- hashing: few buckets keep pointer resolution cheap --------------------
static const size_t primes[] = {16, 64, 256, 1024, 4096, 16384, 65536, 262144, 1048576}; // powers of two: modulo becomes a mask
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; }
    _M_next_resize = n * 2;
    return n * 2 + 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) {
        size_t need = elt + ins;
        if (_M_next_resize == 0 && need < 11) need = 11;
        if (need >= bkt) return {true, _M_next_bkt(need + 1 > bkt * 2 ? need + 1 : bkt * 2)};
        _M_next_resize = (size_t)(bkt * (double)_M_max_load_factor);
        return {false, 0};
    }
    return {false, 0};
}
} // namespace __detail
// Any deterministic function is a valid hash; the length keeps symbolic keys
// from turning bucket selection into arithmetic on their bytes.
size_t _Hash_bytes(const void*, size_t n, size_t) { return n; }
size_t _Fnv_hash_bytes(const void*, size_t n, size_t) { return n; }
} // namespace std

// ---- iostreams: character output, getline; no numeric facets ---------------
namespace std {
// One locale: ctype<char> with identity widening and a num_put that prints
// integers in the requested base; every other facet is absent.
struct rt_num_put : num_put<char> {
    iter_type dig(iter_type o, ios_base& io, unsigned long v, bool neg) const {
        char b[24]; int n = 0;
        auto f = io.flags() & ios_base::basefield;
        if (f == ios_base::hex || f == ios_base::oct) {
            int sh = f == ios_base::hex ? 4 : 3;
            do { b[n++] = "0123456789abcdef"[v & ((1ul << sh) - 1)]; v >>= sh; } while (v);
            while (n) { *o = b[--n]; ++o; }
            return o;
        }
        do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v);
        if (neg) { *o = '-'; ++o; }
        while (n) { *o = b[--n]; ++o; }
        return o;
    }
    iter_type do_put(iter_type o, ios_base& io, char, bool v) const override { return dig(o, io, v, false); }
    iter_type do_put(iter_type o, ios_base& io, char, long v) const override { return v < 0 && (io.flags() & (ios_base::hex | ios_base::oct)) == 0 ? dig(o, io, 0ul - (unsigned long)v, true) : dig(o, io, (unsigned long)v, false); }
    iter_type do_put(iter_type o, ios_base& io, char, unsigned long v) const override { return dig(o, io, v, false); }
    iter_type do_put(iter_type o, ios_base& io, char, long long v) const override { return v < 0 && (io.flags() & (ios_base::hex | ios_base::oct)) == 0 ? dig(o, io, 0ul - (unsigned long)v, true) : dig(o, io, (unsigned long)v, false); }
    iter_type do_put(iter_type o, ios_base& io, char, unsigned long long v) const override { return dig(o, io, v, false); }
    iter_type do_put(iter_type o, ios_base&, char, double v) const override {
        char b[64]; int n = snprintf(b, 64, "%g", v);
        for (int i = 0; i < n; ++i) { *o = b[i]; ++o; }
        return o;
    }
    iter_type do_put(iter_type o, ios_base&, char, const void*) const override { *o = '0'; ++o; *o = 'x'; ++o; return o; }
};
static const locale::facet* rt_facets[16];
static unsigned char         rt_ctype_mem[sizeof(ctype<char>)];
static unsigned char         rt_num_put_mem[sizeof(rt_num_put)];
struct rt_Impl {
    _Atomic_word   _M_refcount;
    const locale::facet** _M_facets;
    size_t         _M_facets_size;
    const locale::facet** _M_caches;
    char**         _M_names;
};
static size_t rt_next_id;
static rt_Impl* rt_impl() {
    static rt_Impl I;
    if (!I._M_facets) {
        I._M_refcount    = 1000;
        I._M_facets      = rt_facets;
        I._M_facets_size = 16;
        rt_facets[ctype<char>::id._M_id()]    = new (rt_ctype_mem) ctype<char>();
        rt_facets[num_put<char>::id._M_id()] = new (rt_num_put_mem) rt_num_put();
    }
    return &I;
}
locale::locale() throw() : _M_impl((_Impl*)rt_impl()) {}
locale::locale(const locale&) throw() : _M_impl((_Impl*)rt_impl()) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
const locale& locale::classic() { static locale l; return l; }
bool locale::operator==(const locale&) const throw() { return true; }
locale::facet::~facet() {}
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++rt_next_id; return _M_index - 1; }
locale::id ctype<char>::id;

ctype<char>::ctype(const mask* t, bool del, size_t refs) : facet(refs), _M_c_locale_ctype(), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(nullptr), _M_widen_ok(1), _M_narrow_ok(1) {
    for (int i = 0; i < 256; ++i) { _M_widen[i] = (char)i; _M_narrow[i] = (char)i; }
}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char*, const char* e) const { return e; }
char ctype<char>::do_tolower(char c) const { return (char)tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char*, const char* e) const { return e; }
void ctype<char>::_M_widen_init() const { _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { _M_narrow_ok = 1; }

ios_base::ios_base() throw()
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const throw() { return "ios failure"; }
void __throw_ios_failure(const char*) { throw runtime_error("ios failure"); }
void __throw_ios_failure(const char*, int) { throw runtime_error("ios failure"); }
void __throw_system_error(int) { throw runtime_error("system error"); }

template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char delim) {
    str.erase();
    basic_istream<char>::sentry ok(in, true);
    if (!ok) { in.setstate(ios_base::failbit); return in; }
    size_t n = 0;
    auto*  sb = in.rdbuf();
    int    c  = sb->sgetc();
    while (c != EOF && (char)c != delim) { str += (char)c; ++n; c = sb->snextc(); }
    ios_base::iostate err = ios_base::goodbit;
    if (c == EOF) err |= ios_base::eofbit;
    else { ++n; sb->sbumpc(); }
    if (n == 0) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
} // namespace std
