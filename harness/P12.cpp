#include "symx.hpp"
#include <hstd/stdlib/Array.hpp>
#include <hstd/stdlib/IntSet.hpp>
#include <hstd/stdlib/Map.hpp>
#include <hstd/stdlib/Set.hpp>
#include <vector>
using namespace hstd;

enum class Flag : unsigned char { F0, F1, F2, F3, F4, F5, F6, F7 };
template <> struct hstd::value_domain<Flag> : public value_domain_ungapped<Flag, Flag::F0, Flag::F7> {};

// sets of bytes with arbitrary members: every operation agrees pointwise with
// the boolean one, for an arbitrary probe
template <class T> static void algebra() {
    auto sym = [](const char* n) { return (T)symx_sym(n, 8); };
    T    a = sym("a"), c = sym("c"), p = sym("probe");
    if constexpr (std::is_enum_v<T>) symx_assume(((int)a < 8) & ((int)c < 8) & ((int)p < 8));
    IntSet<T> x{a}, y{c};
    bool inX = (p == a), inY = (p == c);
    SX_CHECK(x.contains(p) == inX, "membership");
    switch (sx::pick("op", 0, 6)) {
        case 0: SX_CHECK((x | y).contains(p) == (inX | inY), "union"); break;
        case 1: SX_CHECK((x + y).contains(p) == (inX | inY), "union"); break;
        case 2: SX_CHECK((x & y).contains(p) == (inX & inY), "intersection"); break;
        case 3: SX_CHECK((x - y).contains(p) == (inX & !inY), "difference"); break;
        case 4: SX_CHECK((x ^ y).contains(p) == (inX != inY), "symmetric difference"); break;
        case 5: SX_CHECK((~x).contains(p) == !inX, "complement"); break;
        default: {
            x.excl(c);
            SX_CHECK(x.contains(p) == (inX & !inY), "exclusion of a value");
            x.incl(y);
            SX_CHECK(x.contains(p) == (inX | inY), "inclusion of a set");
            x.excl(y);
            SX_CHECK(x.contains(p) == (inX & !inY), "exclusion of a set");
        }
    }
    SX_REACH("end");
}
// members at the word boundaries, so that comparisons of whole sets stay
// concrete while the probe is arbitrary
template <class T> static void compare() {
    static const int at[] = {0, 1, 63, 64, 127, 128, 254, 255};
    bool e = std::is_enum_v<T>;
    T v[4];
    for (T& x : v) { int i = sx::pick("at", 0, 7); x = (T)(e ? i : at[i]); }
    T a = v[0], b = v[1], c = v[2], d = v[3];
    IntSet<T> x{a, b}, y{c};
    y.incl(d);
    int nx = a == b ? 1 : 2, ny = c == d ? 1 : 2;
    SX_CHECK(x.size() == nx && !x.empty() && IntSet<T>{}.empty(), "size counts distinct members");
    bool sub = (a == c || a == d) && (b == c || b == d);
    bool sup = (c == a || c == b) && (d == a || d == b);
    SX_CHECK(y.contains(x) == sub && (x <= y) == sub, "subset");
    SX_CHECK((x < y) == (sub && nx < ny), "proper subset");
    SX_CHECK((x == y) == (sub && sup), "equality");
    int common = (a == c || a == d) + (b != a && (b == c || b == d));
    SX_CHECK((x & y).size() == common && (x | y).size() == nx + ny - common && (x - y).size() == nx - common && (x ^ y).size() == nx + ny - 2 * common, "sizes of combinations");
    T p = (T)symx_sym("probe", 8);
    if (e) symx_assume((int)p < 8);
    bool inX = (p == a) | (p == b), inY = (p == c) | (p == d);
    SX_CHECK(((x | y).contains(p) == (inX | inY)) & ((x & y).contains(p) == (inX & inY)) & ((x - y).contains(p) == (inX & !inY)) & ((x ^ y).contains(p) == (inX != inY)), "combinations");
    SX_REACH("end");
}
extern "C" void intset_compare_char() { compare<char>(); }
extern "C" void intset_compare_enum() { compare<Flag>(); }
extern "C" void intset_byte() { algebra<unsigned char>(); }
extern "C" void intset_char() { algebra<char>(); }
extern "C" void intset_enum() { algebra<Flag>(); }
extern "C" void intset_walk() {
    int v[3];
    for (int& x : v) {
        static const int at[] = {0, 1, 63, 64, 127, 128, 254, 255};
        x = at[sx::pick("at", 0, 7)];
    }
    bool have[256] = {};
    IntSet<char> s;
    for (int x : v) { s.incl((char)x); have[x] = true; }
    int n = 0, last = -1, want = 0;
    for (bool h : have) want += h;
    for (char c : s) {
        int o = (unsigned char)c;
        SX_CHECK(have[o] && last < o, "members are visited in increasing order");
        last = o; ++n;
        if (n > 4) break;
    }
    SX_CHECK(n == want && s.size() == want, "every member is visited once");
    SX_REACH("end");
}
extern "C" void intset_slice() {
    unsigned char lo = sx::u8("lo"), p = sx::u8("probe");
    int           w  = sx::pick("w", 0, 4);
    symx_assume((int)lo + w <= 255);
    IntSet<unsigned char> s{slice(lo, (unsigned char)(lo + w))};
    SX_CHECK(s.contains(p) == (lo <= p && p <= lo + w) && s.size() == w + 1, "a set built from a range has its values");
    s.excl(slice(lo, lo));
    SX_CHECK(s.contains(p) == (lo < p && p <= lo + w), "a range can be excluded");
    SX_REACH("end");
}
template <class S> static void setHistory() {
    S   s;
    int mv[4];
    bool in[4] = {};
    for (int i = 0; i < 4; ++i) mv[i] = i;
    for (int step = 0; step < 3; ++step) {
        int k = sx::pick("key", 0, 3);
        switch (sx::pick("op", 0, 3)) {
            case 0: s.incl(k); in[k] = true; break;
            case 1: s.excl(k); in[k] = false; break;
            case 2: { S o; o.incl(k); o.incl(3); s = s | o; in[k] = in[3] = true; break; }
            default: { S o; o.incl(k); o.incl(0); s = s - o; in[k] = in[0] = false; break; }
        }
    }
    int n = 0;
    for (int i = 0; i < 4; ++i) { SX_CHECK(s.contains(i) == in[i], "membership follows the history"); n += in[i]; }
    SX_CHECK((int)s.size() == n, "size follows the history");
    S o;
    o.incl(1); o.incl(2);
    S a = s & o, x = s ^ o;
    for (int i = 0; i < 4; ++i) {
        bool io = i == 1 || i == 2;
        SX_CHECK(a.contains(i) == (in[i] && io) && x.contains(i) == (in[i] != io), "intersection and symmetric difference");
    }
    SX_REACH("end");
}
extern "C" void unordered_set_history() { setHistory<UnorderedSet<int>>(); }
template <class M> static void mapHistory() {
    M   m;
    bool in[3] = {};
    int  val[3] = {};
    for (int step = 0; step < 3; ++step) {
        int k = sx::pick("key", 0, 2), v = sx::i32("v");
        switch (sx::pick("op", 0, 4)) {
            case 0: {
                int& r = m.get_or_insert(k, v);
                if (!in[k]) { in[k] = true; val[k] = v; }
                SX_CHECK(r == val[k], "existing value wins over the fallback");
                r = v; val[k] = v;
                break;
            }
            case 1: {
                bool threw = false;
                try { m.insert_unqiue(k, v); } catch (std::exception const&) { threw = true; }
                SX_CHECK(threw == in[k], "inserting a present key is refused");
                if (!in[k]) { in[k] = true; val[k] = v; }
                break;
            }
            case 2: {
                auto r = m.pop_opt(k);
                SX_CHECK(r.has_value() == in[k] && (!in[k] || *r == val[k]), "removal gives the removed value");
                in[k] = false;
                break;
            }
            case 3: m.insert_or_assign(k, v); in[k] = true; val[k] = v; break;
            default: {
                bool threw = false; int got = 0;
                try { got = m.at(k); } catch (std::exception const&) { threw = true; }
                SX_CHECK(threw == !in[k] && (threw || got == val[k]), "access to a missing key is refused");
                break;
            }
        }
    }
    int n = 0;
    for (int k = 0; k < 3; ++k) {
        n += in[k];
        SX_CHECK(m.contains(k) == in[k], "presence follows the history");
        auto g = m.get(k);
        SX_CHECK(g.has_value() == in[k] && (!in[k] || *g == val[k]), "optional access follows the history");
    }
    auto ks = m.keys();
    auto vs = m.values();
    SX_CHECK(ks.size() == n && vs.size() == n && (int)m.size() == n, "keys and values are complete");
    for (int i = 0; i < n; ++i) {
        SX_CHECK(in[ks[i]] && vs[i] == val[ks[i]], "keys and values correspond");
        for (int j = 0; j < i; ++j) SX_CHECK(ks[i] != ks[j], "keys are distinct");
    }
    SX_REACH("end");
}
extern "C" void unordered_map_history() { mapHistory<UnorderedMap<int, int>>(); }
extern "C" void sorted_map_history() { mapHistory<SortedMap<int, int>>(); }
extern "C" void typed_array() {
    TypArray<char, int> a;
    char k = sx::chr("k"), q = sx::chr("q");
    int  v = sx::i32("v");
    a[k] = v;
    SX_CHECK(a.at(k) == v && (q == k || a[q] == 0), "storing under a key touches that key only");
    SX_REACH("end");
}
extern "C" void typed_array_pairs() {
    TypArray<Flag, int> e;
    TypArray<char, int> a;
    (void)e;
    for (int i = 0; i < 256; ++i) a[(char)i] = i;
    int n = 0;
    for (auto [k, v] : a.pairs()) {
        SX_CHECK(n < 256 && (unsigned char)k == n && *v == n, "pairs list every key with its value once in order");
        if (++n > 256) break;
    }
    SX_CHECK(n == 256, "every key is listed");
    TypArray<Flag, int> f;
    n = 0;
    for (auto [k, v] : f.pairs()) { SX_CHECK((int)k == n && *v == 0, "enumerated keys are listed once"); if (++n > 8) break; }
    SX_CHECK(n == 8, "every enumerated key is listed");
    SX_REACH("end");
}
// equal maps hash equally whatever the insertion order
extern "C" void map_hash() {
    UnorderedMap<int, int> a, b;
    int k[3] = {1, 2, 3}, v[3];
    for (int& x : v) x = sx::pick("v", -1, 1) * 1000003;
    v[0] = sx::i32("v0");
    int n = sx::pick("n", 0, 3), r = sx::pick("rot", 0, 2);
    for (int i = 0; i < n; ++i) a.insert_or_assign(k[i], v[i]);
    for (int i = n - 1; i >= 0; --i) { int j = (i + r) % (n ? n : 1); b.insert_or_assign(k[j], v[j]); }
    SX_CHECK(((int)a.size() == n) & (std::hash<UnorderedMap<int, int>>{}(a) == std::hash<UnorderedMap<int, int>>{}(b)), "hash does not depend on insertion order");
    SX_REACH("end");
}
extern "C" void set_const_walk() {
    static const unsigned char at[] = {0, 1, 63, 64, 128, 255};
    unsigned char a = at[sx::pick("a", 0, 5)], b = at[sx::pick("b", 0, 5)];
    const IntSet<unsigned char> s{a, b};
    int n = 0, last = -1;
    for (unsigned char v : s) {
        SX_CHECK((v == a || v == b) && (int)v > last, "a constant set lists its members in order");
        last = v;
        if (++n > 2) break;
    }
    SX_CHECK(n == (a == b ? 1 : 2), "a constant set lists all of its members");
    SX_REACH("end");
}
extern "C" void fixed_array() {
    Array<int, 4> a;
    for (int i = 0; i < 4; ++i) a[i] = sx::i32("item");
    int idx = sx::i32("idx");
    SX_CHECK(a.has(idx) == (0 <= idx && idx < 4) && a.high() == 3, "positions of a fixed array");
    int x = sx::range("x", -2, 6), y = sx::range("y", -2, 6);
    bool ok = 0 <= x && x < 4 && 0 <= y && y < 4;
    symx_assume(!ok || x <= y);
    bool threw = false;
    try {
        auto s = a.at(HSlice<int, int>{x, y});
        SX_CHECK((int)s.size() == y - x + 1, "a part has the elements between its bounds");
        for (int i = 0; i < (int)s.size() && i < 4; ++i) SX_CHECK(&s[i] == &a[x + i], "a part refers to the elements of the array");
        auto const& c = a;
        auto t = c.at(HSlice<int, int>{x, y});
        SX_CHECK((int)t.size() == y - x + 1, "a constant part has the elements between its bounds");
        for (int i = 0; i < (int)t.size() && i < 4; ++i) SX_CHECK(&t[i] == &a[x + i], "a constant part refers to the elements of the array");
        auto u = a[HSlice<int, int>{x, y}];
        auto w = c[HSlice<int, int>{x, y}];
        SX_CHECK(u.data() == s.data() && u.size() == s.size() && w.data() == s.data() && w.size() == s.size(), "unchecked parts are the same");
    } catch (std::exception const&) { threw = true; }
    SX_CHECK(threw == !ok, "parts outside of the array are refused");
    int back = sx::pick("back", 1, 4);
    SX_CHECK(&a[BackwardsIndex{back}] == &a[4 - back] && &a.at(BackwardsIndex{back}) == &a[4 - back], "positions from the end");
    int  v = sx::i32("v"), at = a.indexOf(v), want = -1;
    for (int i = 3; i >= 0; --i) {
        if (a[i] == v) want = i;
    }
    SX_CHECK(at == want, "the first position of a value");
    SX_REACH("end");
}
