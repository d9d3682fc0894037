#include "symx.hpp"
#include <hstd/stdlib/Slice.hpp>
#include <hstd/stdlib/Vec.hpp>
using namespace hstd;

template <class T> static T sym(const char* n) { return (T)symx_sym(n, sizeof(T) * 8); }
// the set of values a slice denotes, for one arbitrary probe value
template <class T> static bool in(Slice<T> const& s, T p) { return (s.first <= p) & (p <= s.last); }

template <class T> static void algebra() {
    T a = sym<T>("a"), b = sym<T>("b"), c = sym<T>("c"), d = sym<T>("d"), p = sym<T>("probe");
    symx_assume((a <= b) & (c <= d));
    Slice<T> s = slice(a, b), o = slice(c, d);
    SX_CHECK(s.first == a && s.last == b, "slice keeps its bounds");
    SX_CHECK(s.contains(p) == in(s, p), "membership is inclusive on both ends");
    SX_CHECK(s.contains(o) == (a <= c && d <= b), "a slice contains another when it has all of its values");
    SX_CHECK(s.isPoint() == (a == b) && s.isValid(), "point and validity");
    SX_CHECK(s.isBefore(p) == (p < a) && s.isAfter(p) == (p > b), "sides of a slice");
    bool meet = a <= d && c <= b;
    auto ov   = s.overlap(o);
    auto vo   = o.overlap(s);
    SX_CHECK(ov.has_value() == meet && vo.has_value() == meet, "slices overlap exactly when they share a value");
    if (ov && vo) {
        SX_CHECK(in(*ov, p) == (in(s, p) && in(o, p)), "overlap has exactly the shared values");
        SX_CHECK(*ov == *vo, "overlap is symmetric");
        SX_REACH("meet");
    }
    auto h = s.expanded(o);
    SX_CHECK(h.first == (a < c ? a : c) && h.last == (b > d ? b : d), "expanded slice is the smallest one around both");
    auto n = s.narrow(o);
    if (meet) SX_CHECK(in(n, p) == (in(s, p) && in(o, p)), "narrowing keeps the shared values");
    else SX_CHECK(n == s, "narrowing by a disjoint slice changes nothing");
    Slice<T> e = s;
    e.expand(p);
    SX_CHECK(e.first == (p < a ? p : a) && e.last == (p > b ? p : b), "expanding by a value is minimal");
    SX_CHECK((s == o) == (a == c && b == d), "equality");
    SX_REACH("end");
}
extern "C" void algebra_int() { algebra<int>(); }
extern "C" void algebra_uint() { algebra<unsigned>(); }
extern "C" void algebra_i64() { algebra<long long>(); }
extern "C" void algebra_u64() { algebra<unsigned long long>(); }
extern "C" void algebra_i8() { algebra<signed char>(); }
extern "C" void algebra_u16() { algebra<unsigned short>(); }

template <class T> static void build() {
    T a = sym<T>("a"), b = sym<T>("b");
    symx_assume((a <= 300) & (b <= 300));
    if (std::is_signed_v<T>) symx_assume((a >= (T)-300) & (b >= (T)-300));
    bool ok = true;
    try {
        auto s = slice(a, b);
        SX_CHECK(s.first == a && s.last == b, "built as asked");
    } catch (std::exception const&) { ok = false; }
    SX_CHECK(ok == (a <= b), "a slice with swapped bounds is refused");
    if (ok) SX_REACH("built"); else SX_REACH("refused");
}
extern "C" void build_short() { build<short>(); }
extern "C" void build_uchar() { build<unsigned char>(); }

// iteration visits exactly first..last in order, also at the ends of the type
template <class T> static void walk(int width) {
    T a = sym<T>("a");
    int n = sx::pick("n", 0, width);
    symx_assume(a <= (T)(value_domain<T>::high() - n));
    T b = (T)(a + n);
    int i = 0;
    for (T v : slice(a, b)) {
        SX_CHECK(i <= n, "iteration stops after the last value");
        SX_CHECK(v == (T)(a + i), "values come in order without gaps");
        ++i;
        if (i > n + 1) break;
    }
    SX_CHECK(i == n + 1, "every value is visited");
    if (b == value_domain<T>::high()) SX_REACH("at-end");
    SX_REACH("end");
}
extern "C" void walk_int() { walk<int>(4); }
extern "C" void walk_u8() { walk<unsigned char>(4); }
extern "C" void walk_i64() { walk<long long>(3); }
extern "C" void walk_char() {
    char a = sx::chr("a");
    int  n = sx::pick("n", 0, 4);
    char b = (char)(a + n);
    symx_assume(a <= b);
    int i = 0;
    for (char v : slice(a, b)) { SX_CHECK(i <= n && v == (char)(a + i), "characters come in order"); ++i; if (i > 6) break; }
    SX_CHECK(i == n + 1, "every character is visited");
    SX_REACH("end");
}
enum class Small : unsigned char { A, B, C, D };
template <> struct hstd::value_domain<Small> : public value_domain_ungapped<Small, Small::A, Small::D> {};
extern "C" void walk_domain() {
    int i = 0;
    for (Small v : sliceT<Small>()) { SX_CHECK((int)v == i, "enumerators in order"); ++i; if (i > 5) break; }
    SX_CHECK(i == 4, "the slice of a type visits its whole domain");
    i = 0;
    int last = -1;
    for (unsigned char v : sliceT<unsigned char>()) { SX_CHECK((int)v == last + 1, "bytes in order"); last = v; ++i; if (i > 300) break; }
    SX_CHECK(i == 256, "the slice of bytes has 256 values");
    SX_REACH("end");
}
// positions named by a slice of a container of the given size
template <class A, class B> static void spanOf(A a, B b, long long ra, long long rb, int size) {
    bool ok = 0 <= ra && ra < size && 0 <= rb && rb < size;
    bool threw = false;
    Pair<int, int> r{-1, -1};
    try { r = getSpan(size, HSlice<A, B>{a, b}); } catch (std::exception const&) { threw = true; }
    SX_CHECK(threw == !ok, "slices that leave the container are refused");
    if (!threw) { SX_CHECK(r.first == ra && r.second == rb, "forward and backward positions resolve from their own end"); SX_REACH("resolved"); }
    else SX_REACH("refused");
}
extern "C" void span_positions() {
    int size = sx::range("size", 0, 1000000), a = sx::range("a", -2000000, 2000000), b = sx::range("b", -2000000, 2000000);
    switch (sx::pick("kind", 0, 3)) {
        case 0: spanOf(a, b, a, b, size); break;
        case 1: spanOf(BackwardsIndex{a}, b, (long long)size - a, b, size); break;
        case 2: spanOf(a, BackwardsIndex{b}, a, (long long)size - b, size); break;
        default: spanOf(BackwardsIndex{a}, BackwardsIndex{b}, (long long)size - a, (long long)size - b, size); break;
    }
}
extern "C" void back_order() {
    int a = sx::i32("a"), b = sx::i32("b");
    BackwardsIndex x{a}, y{b};
    SX_CHECK((x < y) == (a > b) && (x <= y) == (a >= b) && (x > y) == (a < b) && (x >= y) == (a <= b) && (x == y) == (a == b) && (x != y) == (a != b), "positions counted from the end are ordered as the positions they name");
    SX_REACH("end");
}
extern "C" void built_otherwise() {
    int a = sx::i32("a"), b = sx::i32("b");
    Slice<int> raw;
    raw.first = a;
    raw.last  = b;
    SX_CHECK(raw.isValid() == (a <= b), "a slice is valid when its bounds are in order");
    int        size = sx::range("size", 1, 2147483647);
    struct { int n; int size() const { return n; } } box{size};
    auto s = sliceSize(box);
    SX_CHECK(s.first == 0 && s.last == size - 1, "the slice of a container names all of its positions");
    auto h = slice(a, BackwardsIndex{b});
    SX_CHECK(h.first == a && h.last.value == b, "slices from a position to a position from the end keep both");
    SX_CHECK(backIndex(b).value == b && (3_B).value == 3, "positions from the end keep their distance");
    symx_assume(a <= b);
    auto range = slice1(a, b);
    auto x = range.begin(), y = range.begin();
    int  i = sx::pick("i", 0, 2), j = sx::pick("j", 0, 2);
    for (int k = 0; k < i; ++k) ++x;
    for (int k = 0; k < j; ++k) ++y;
    long long len = (long long)b - a + 1;
    bool      ex = i >= len, ey = j >= len;
    SX_CHECK((x != y) == (ex != ey || (!ex && i != j)), "two positions of an iteration differ unless they are at the same value or both at the end");
    SX_CHECK((x != range.end()) == !ex, "an iteration is at the end after the last value");
    SX_REACH("end");
}
extern "C" void printed() {
    int a = sx::range("a", 0, 9), b = sx::range("b", 0, 9);
    fmt::verif_enabled = true;
    auto text = fmt::format("{}", slice(a, BackwardsIndex{b}));
    fmt::verif_enabled = false;
    SX_CHECK(text.size() == 7 && text[0] == '[' && text[1] == '0' + a && text[2] == '.' && text[3] == '.' && text[4] == '^' && text[5] == '0' + b && text[6] == ']', "a printed slice shows both bounds");
    SX_REACH("end");
}
