// Two-way maps answer the same in both directions; path trackers are values; sequence helpers visit in order.
#include <hstd/ext/bimap_wrap.hpp>
#include <hstd/stdlib/Ranges.hpp>
#include <hstd/stdlib/RecursivePathTracker.hpp>
#include <hstd/stdlib/sequtils.hpp>
#include <symx.hpp>
#include <algorithm>

using namespace hstd;
using Pairs = std::vector<std::pair<int, int>>;

#ifdef TIER_THOROUGH
static const int OPS = 4;
#else
static const int OPS = 3;
#endif

template <typename T>
static std::vector<int> sorted_of(T const& v) {
    std::vector<int> r(v.begin(), v.end());
    std::sort(r.begin(), r.end());
    return r;
}
/// All keys meet in one bucket, so that they are told apart by comparing them.
struct OneBucket {
    size_t operator()(int) const { return 0; }
};

template <typename M, bool ONE, bool STABLE>
static void bimap() {
    M     m;
    Pairs model;
    auto  left = [&](int l) { return std::find_if(model.begin(), model.end(), [&](auto const& p) { return p.first == l; }); };
    auto  hasR = [&](int r) { return std::any_of(model.begin(), model.end(), [&](auto const& p) { return p.second == r; }); };
    for (int i = 0; i < OPS; ++i) {
        int op = sx::pick("op", 0, ONE ? 2 : 3), l = sx::i32("l"), r = sx::i32("r");
        switch (op) {
            case 0: {
                bool taken = left(l) != model.end() || (ONE && hasR(r)), thrown = false;
                try {
                    m.add_unique(l, r);
                } catch (std::exception const&) { thrown = true; }
                SX_CHECK(thrown == taken, "taken keys are refused");
                if (!taken) { model.push_back({l, r}); }
                break;
            }
            case 1: {
                m.erase_left(l);
                if (left(l) != model.end()) { model.erase(left(l)); }
                break;
            }
            case 2: {
                m.erase_right(r);
                model.erase(std::remove_if(model.begin(), model.end(), [&](auto const& p) { return p.second == r; }), model.end());
                break;
            }
            default: {
                if constexpr (!ONE) {
                    bool known = left(l) != model.end();
                    SX_CHECK(m.reassign(l, r) == known, "only known keys are reassigned");
                    if (known) { left(l)->second = r; }
                }
            }
        }
    }
    {
        int  l  = sx::i32("left");
        auto it = left(l);
        SX_CHECK(m.contains_left(l) == (it != model.end()), "known left keys");
        Opt<int> r = m.get_right(l);
        SX_CHECK(r.has_value() == (it != model.end()) && (!r || *r == it->second), "the partner of a left key");
        bool thrown = false;
        try {
            SX_CHECK(m.at_right(l) == it->second, "the partner of a left key");
        } catch (std::exception const&) { thrown = true; }
        SX_CHECK(thrown == (it == model.end()), "unknown left keys are refused");
    }
    {
        int              r = sx::i32("right");
        std::vector<int> partners;
        for (auto const& p : model) {
            if (p.second == r) { partners.push_back(p.first); }
        }
        std::sort(partners.begin(), partners.end());
        SX_CHECK(m.contains_right(r) == !partners.empty(), "known right keys");
        bool thrown = false;
        if constexpr (ONE) {
            Opt<int> l = m.get_left(r);
            SX_CHECK(l.has_value() == !partners.empty() && (!l || *l == partners[0]), "the partner of a right key");
            try {
                SX_CHECK(m.at_left(r) == partners.at(0), "the partner of a right key");
            } catch (std::exception const&) { thrown = true; }
        } else {
            SX_CHECK(sorted_of(m.get_left(r)) == partners, "all partners of a right key");
            try {
                SX_CHECK(sorted_of(m.at_left(r)) == partners, "all partners of a right key");
            } catch (std::exception const&) { thrown = true; }
        }
        SX_CHECK(thrown == partners.empty(), "unknown right keys are refused");
    }
    std::vector<int> ls, rs;
    for (auto const& p : model) { ls.push_back(p.first), rs.push_back(p.second); }
    auto keys = m.left_keys();
    if (STABLE) { SX_CHECK(std::vector<int>(keys.begin(), keys.end()) == ls, "left keys are in the order they were added"); }
    std::sort(ls.begin(), ls.end()), std::sort(rs.begin(), rs.end());
    SX_CHECK(sorted_of(keys) == ls, "all left keys");
    SX_CHECK(sorted_of(m.right_keys()) == rs, "all right keys");
    SX_REACH("end");
}
extern "C" void bimap_one_to_one() { bimap<ext::Unordered1to1Bimap<int, int, OneBucket, OneBucket>, true, false>(); }
extern "C" void bimap_many_to_one() { bimap<ext::UnorderedNto1Bimap<int, int, OneBucket, OneBucket>, false, false>(); }
extern "C" void bimap_stable() { bimap<ext::StableNto1Bimap<int, int, OneBucket>, false, true>(); }

static void same(RecursivePathTracker<int> const& t, std::vector<int> const& m) {
    SX_CHECK(t.size() == (int)m.size() && t.empty() == m.empty(), "size");
    Vec<int> v = t.toVector();
    SX_CHECK(v.size() == m.size(), "as many steps as pushed");
    for (size_t i = 0; i < m.size(); ++i) { SX_CHECK(v.at((int)i) == m[i] && t[(int)i] == m[i] && t.begin()[(long)i] == m[i] && *(t.begin() + (long)i) == m[i] && *(t.end() - (long)(m.size() - i)) == m[i], "steps in order"); }
    int at = sx::i32("at");
    bool thrown = false;
    try {
        int got = t[at];
        SX_CHECK(0 <= at && at < (int)m.size() && got == m[(size_t)at], "a step of the path");
    } catch (std::out_of_range const&) { thrown = true; }
    SX_CHECK(thrown == (at < 0 || (int)m.size() <= at), "positions outside the path are refused");
    if (!m.empty()) { SX_CHECK(t.back() == m.back(), "last step"); }
    size_t n = 0;
    for (int x : t) {
        SX_CHECK(n < m.size() && x == m[n], "visited in order");
        ++n;
    }
    SX_CHECK(n == m.size() && t.end() - t.begin() == (long)m.size(), "all visited");
    auto a = t.begin(), b = t.begin();
    if (!m.empty()) {
        SX_CHECK(a++ == b && a != b && b < a && b <= a && a > b && a >= b && a - b == 1, "order of positions");
        a += -1;
        SX_CHECK(a == b && a <= b && a >= b && !(a < b) && !(a > b), "order of positions");
        ++a, --a, a -= 1, ++a;
        SX_CHECK(a == b && *a == *b.operator->(), "moving back and forth");
    }
}
extern "C" void path_tracker() {
    RecursivePathTracker<int> t, old;
    std::vector<int>          m, mold;
    for (int i = 0; i < OPS; ++i) {
        switch (sx::pick("op", 0, 2)) {
            case 0: {
                int s = sx::i32("step");
                t     = t.push(s);
                m.push_back(s);
                break;
            }
            case 1: {
                t = t.pop();
                if (!m.empty()) { m.pop_back(); }
                break;
            }
            default: old = t, mold = m;
        }
    }
    same(t, m);
    same(old, mold);
    SX_REACH("end");
}

extern "C" void sequences() {
    int      n = sx::pick("n", 0, 5);
    Vec<int> v;
    for (int i = 0; i < n; ++i) { v.push_back(sx::i32("v")); }
    int i = 0;
    for (auto const& [index, x] : enumerate(std::as_const(v))) {
        SX_CHECK(index == i && i < n && x == v.at(i), "numbered in order");
        ++i;
    }
    SX_CHECK(i == n, "all numbered");
    int item = sx::i32("item"), at = index_of(v, item), first = -1;
    for (int k = n - 1; 0 <= k; --k) {
        if (v.at(k) == item) { first = k; }
    }
    SX_CHECK(at == first, "position of the first equal item");
    bool all = true;
    for (int x : v) { all = all && x < item; }
    SX_CHECK(hstd::all_of(v, [&](int x) { return x < item; }) == all, "all");
    int k = 0;
    for (auto const& [a, b] : v | rv_sliding_tuple2) {
        SX_CHECK(k + 1 < n && a == v.at(k) && b == v.at(k + 1), "neighbours");
        ++k;
    }
    SX_CHECK(k == std::max(0, n - 1), "all neighbours");
    k = 0;
    for (auto const& [a, b, c] : v | rv_sliding_tuple3) {
        SX_CHECK(k + 2 < n && a == v.at(k) && b == v.at(k + 1) && c == v.at(k + 2), "three neighbours");
        ++k;
    }
    SX_CHECK(k == std::max(0, n - 2), "all three neighbours");
    k = 0;
    for (auto const& [a, b, c, d] : v | rv_sliding_tuple4) {
        SX_CHECK(k + 3 < n && a == v.at(k) && b == v.at(k + 1) && c == v.at(k + 2) && d == v.at(k + 3), "four neighbours");
        ++k;
    }
    SX_CHECK(k == std::max(0, n - 3), "all four neighbours");
    SX_REACH("end");
}

static generator<int> count(int n, int base) {
    for (int i = 0; i < n; ++i) { co_yield base + i; }
}
extern "C" void generated() {
    int n = sx::pick("n", 0, 4), base = sx::range("base", -1000, 1000);
    int k = 0;
    for (int x : gen_view(count(n, base))) {
        SX_CHECK(k < n && x == base + k, "generated in order");
        ++k;
    }
    SX_CHECK(k == n, "all generated");
    std::vector<int> v;
    for (int i = 0; i < n; ++i) { v.push_back(sx::i32("v")); }
    k = 0;
    for (int x : own_view(std::vector<int>(v))) {
        SX_CHECK(k < n && x == v[(size_t)k], "owned in order");
        ++k;
    }
    SX_CHECK(k == n, "all owned");
    k = 0;
    for (int x : indexed_get_iterator<int, std::vector<int>>(v, [](std::vector<int> const& in) { return (int)in.size(); }, [](std::vector<int> const& in, int i) { return in.at((size_t)i); })) {
        SX_CHECK(k < n && x == v[(size_t)k], "read in order");
        ++k;
    }
    SX_CHECK(k == n, "all read");
    std::vector<Opt<int>> opts;
    std::vector<int>      kept;
    for (int i = 0; i < n; ++i) {
        if (sx::boolean("has")) {
            opts.push_back(v[(size_t)i]), kept.push_back(v[(size_t)i]);
        } else {
            opts.push_back(std::nullopt);
        }
    }
    k = 0;
    for (int x : opts | drop_if_nullopt() | unpack_optional()) {
        SX_CHECK(k < (int)kept.size() && x == kept[(size_t)k], "held values in order");
        ++k;
    }
    SX_CHECK(k == (int)kept.size(), "all held values");
    SX_REACH("end");
}
