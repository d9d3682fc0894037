#include "symx.hpp"
#include <hstd/stdlib/Enumerate.hpp>
#include <list>
#include <vector>
#ifdef TIER_THOROUGH
constexpr int N = 6;
#else
constexpr int N = 4;
#endif

static std::vector<int> mkvec(int n) {
    std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(sx::i32("v"));
    return v;
}
// what the skips mean: negative skips nothing, the trailing one never reaches
// into the elements dropped by the leading one
static int lead(int a, int n) { return a < 0 ? 0 : a > n ? n : a; }
static int trail(int b, int rest) { return b < 0 ? 0 : b > rest ? rest : b; }

template <class E, class Seq>
static void walk(E e, Seq const& ref, int from, int count) {
    int k = 0;
    for (auto it = e.begin(); it != e.end(); ++it, ++k) {
        SX_CHECK(k < count, "iteration stays inside the selected range");
        if (k >= count) return;
        auto        item  = *it;
        auto const& citem = item;
        SX_CHECK(item.index() == k, "index counts from zero");
        SX_CHECK(item.base_index() == from + k, "base index addresses the sequence");
        SX_CHECK(item.value() == ref[(size_t)(from + k)], "value is the element at the base index");
        SX_CHECK(citem.value() == ref[(size_t)(from + k)], "const value is the element at the base index");
        SX_CHECK(item.is_first() == (k == 0), "first flag");
        SX_CHECK(item.is_last() == (k == count - 1), "last flag");
        SX_CHECK(item.size() == count, "item reports the size of the selected range");
    }
    SX_CHECK(k == count, "every selected element is visited exactly once");
}

extern "C" void enumerate_walk() {
    int  n = sx::pick("n", 0, N);
    auto v = mkvec(n);
    int  a = sx::i32("skip_first"), b = sx::i32("skip_last");
    int  from = lead(a, n), count = n - from - trail(b, n - from);
    auto e = hstd::enumerator(v).skip_first(a).skip_last(b);
    SX_CHECK(e.base_size() == n, "base size");
    walk(e, v, from, count);
    if (count == 0 && n > 0) SX_REACH("emptied");
    if (count > 1 && from > 0) SX_REACH("partial");
}
// order of the builder calls does not matter; plain enumeration
extern "C" void enumerate_builder() {
    int  n = sx::pick("n", 0, N);
    auto v = mkvec(n);
    walk(hstd::enumerator(v), v, 0, n);
    int  b = sx::i32("skip_last");
    int  t = trail(b, n);
    walk(hstd::enumerator(v).skip_last(b), v, 0, n - t);
    int  a = sx::i32("skip_first");
    int  from = lead(a, n);
    walk(hstd::enumerator(v).skip_last(b).skip_first(a), v, from, n - from - trail(b, n - from));
    SX_REACH("end");
}
extern "C" void enumerate_list() {
    int            n = sx::pick("n", 0, 3);
    auto           v = mkvec(n);
    std::list<int> l(v.begin(), v.end());
    int            a = sx::range("skip_first", -2, 5), b = sx::range("skip_last", -2, 5);
    int            from = lead(a, n), count = n - from - trail(b, n - from);
    walk(hstd::enumerator(l).skip_first(a).skip_last(b), v, from, count);
    SX_REACH("end");
}
extern "C" void enumerate_neighbours() {
    int  n = sx::pick("n", 1, N);
    auto v = mkvec(n);
    int  a = sx::range("skip_first", 0, n), b = sx::range("skip_last", 0, n);
    int  from = lead(a, n), count = n - from - trail(b, n - from);
    int  off = sx::i32("offset");
    symx_assume((off > -1000000000) & (off < 1000000000));
    bool fwd = sx::boolean("forward"), cst = sx::boolean("const");
    int  k   = 0;
    auto e   = hstd::enumerator(v).skip_first(a).skip_last(b);
    int  at  = sx::pick("at", 0, n - 1);
    for (auto it = e.begin(); it != e.end(); ++it, ++k) {
        if (k != at) continue;
        auto        item   = *it;
        auto const& citem  = item;
        int         pos    = fwd ? k + off : k - off;
        bool        inside = 0 <= pos && pos < count;
        try {
            int got = fwd ? (cst ? citem.next(off) : item.next(off)) : (cst ? citem.prev(off) : item.prev(off));
            SX_CHECK(inside, "a neighbour outside the selected range is refused");
            SX_CHECK(got == v[(size_t)(from + pos)], "a neighbour is the element at that distance");
            SX_REACH("neighbour");
        } catch (std::domain_error const&) {
            SX_CHECK(!inside, "a neighbour inside the selected range is returned");
            SX_REACH("refused");
        }
        if (k > 0) { SX_CHECK((cst ? citem.prev() : item.prev()) == v[(size_t)(from + k - 1)], "default prev is one back"); }
        if (k + 1 < count) { SX_CHECK((cst ? citem.next() : item.next()) == v[(size_t)(from + k + 1)], "default next is one ahead"); }
    }
}
