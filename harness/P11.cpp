#include "symx.hpp"
#include <hstd/stdlib/Array.hpp>
#include <hstd/stdlib/Str.hpp>
#include <hstd/stdlib/Vec.hpp>
#include <hstd/stdlib/algorithms.hpp>
#include <functional>
#include <vector>
using namespace hstd;
#if TIER_THOROUGH
constexpr int N = 4;
#else
constexpr int N = 3;
#endif

template <class C, class E> static void readAccess(C& v, std::vector<E> const& m) {
    C const& cv = v;
    int      n  = (int)m.size();
    int      i  = sx::i32("index");
    bool     ok = 0 <= i && i < n;
    // from the end: 1 is the last element
    bool bok = 1 <= i && i <= n;
    SX_CHECK(v.size() == n && v.empty() == (n == 0) && v.high() == n - 1, "size facts");
    SX_CHECK(v.has(i) == ok, "presence of a forward index");
    auto expect = [&](bool good, auto&& get, E want, const char* what) {
        bool threw = false;
        E    got{};
        try { got = get(); } catch (std::exception const&) { threw = true; }
        SX_CHECK(threw == !good, what);
        if (!threw && good) SX_CHECK(got == want, what);
    };
    E fw = ok ? m[i] : E{}, bw = bok ? m[n - i] : E{};
    expect(ok, [&] { return v.at(i); }, fw, "checked access");
    expect(ok, [&] { return cv.at(i); }, fw, "checked const access");
    expect(ok, [&] { return v[i]; }, fw, "operator access is checked");
    expect(ok, [&] { return cv[i]; }, fw, "const operator access is checked");
    SX_CHECK(v.get(i).has_value() == ok && cv.get(i).has_value() == ok && cv.get_copy(i).has_value() == ok, "optional access is empty outside of the sequence");
    E fb = (E)symx_sym("fallback", sizeof(E) * 8);
    if (ok) {
        SX_CHECK(v.get(i).value().get() == fw && cv.get(i).value().get() == fw && cv.get_copy(i).value() == fw, "optional access gives the element");
        SX_CHECK(&v.get(i).value().get() == &v.at(i), "optional access refers to the stored element");
        SX_CHECK(cv.at_or(i, fb) == fw, "fallback is not used for present elements");
        SX_REACH("forward");
    } else SX_CHECK(cv.at_or(i, fb) == fb, "fallback is used for missing elements");
    if (-1000000 < i && i < 1000000) {
        BackwardsIndex b{i};
        SX_CHECK(v.has(b) == bok, "presence of a backward index");
        expect(bok, [&] { return v.at(b); }, bw, "backward access");
        expect(bok, [&] { return cv.at(b); }, bw, "const backward access");
        expect(bok, [&] { return v[b]; }, bw, "backward operator access");
        SX_CHECK(v.get(b).has_value() == bok && cv.get(b).has_value() == bok, "optional backward access");
        if (bok) { SX_CHECK(cv.get(b).value().get() == bw && cv.get_copy(b).value() == bw && cv.at_or(b, fb) == bw, "optional backward access gives the element"); SX_REACH("backward"); }
        else SX_CHECK(cv.at_or(b, fb) == fb, "fallback for a missing backward index");
    }
    expect(n > 0, [&] { return v.back(); }, n ? m.back() : E{}, "last element is checked");
}
template <class C, class E> static C fresh(std::vector<E>& m, int lo, int hi) {
    int n = sx::pick("n", lo, hi);
    C   v;
    for (int i = 0; i < n; ++i) { E x = (E)symx_sym("v", sizeof(E) * 8); m.push_back(x); v.push_back(x); }
    return v;
}
template <class C, class E> static bool same(C const& v, std::vector<E> const& m) {
    if (v.size() != (int)m.size()) return false;
    bool r = true;
    int  i = 0;
    for (auto const& x : v) r = r & (x == m[i++]);
    return r;
}
extern "C" void vec_access() { std::vector<int> m; auto v = fresh<Vec<int>>(m, 0, N); readAccess(v, m); }
extern "C" void smallvec_access() { std::vector<int> m; auto v = fresh<SmallVec<int, 2>>(m, 0, N); readAccess(v, m); }

template <class C> static void history() {
    std::vector<int> m;
    C                v = fresh<C>(m, 0, 2);
    for (int step = 0; step < 2; ++step) {
        int x = sx::i32("x");
        switch (sx::pick("op", 0, 8)) {
            case 0: { int at = v.push_back_idx(x); SX_CHECK(at == (int)m.size(), "appended at the returned index"); m.push_back(x); break; }
            case 1: {
                bool threw = false; int got = 0;
                try { got = v.pop_back_v(); } catch (std::exception const&) { threw = true; }
                SX_CHECK(threw == m.empty(), "taking from an empty sequence is refused");
                if (!m.empty()) { SX_CHECK(got == m.back(), "the last element is taken"); m.pop_back(); }
                break;
            }
            case 2: {
                bool threw = false;
                try { v.pop_back(); } catch (std::exception const&) { threw = true; }
                SX_CHECK(threw == m.empty(), "removing from an empty sequence is refused");
                if (!m.empty()) m.pop_back();
                break;
            }
            case 3: {
                int at = sx::range("at", 0, 4);
                int& r = v.resize_at((int)symx_concretize(at));
                if ((int)m.size() <= at) m.resize(at + 1);
                SX_CHECK(r == m[at], "resized element is readable");
                r = x; m[at] = x;
                break;
            }
            case 4: {
                int at = (int)symx_concretize(sx::range("at", 0, 4));
                int& r = v.resize_at(at, x);
                if ((int)m.size() <= at) m.resize(at + 1, x);
                SX_CHECK(r == m[at], "filler is used for new elements only");
                break;
            }
            case 5: { C o = v + x; m.push_back(x); v = o; break; }
            case 6: { C o = v; C s = v + o; auto c = m; m.insert(m.end(), c.begin(), c.end()); v = s; break; }
            case 7: { C o; o.push_back(x); v.append(o); m.push_back(x); break; }
            default: if (!m.empty()) { v.at(0) = x; m[0] = x; } break;
        }
        SX_CHECK(same(v, m), "content follows the operations");
    }
    int y = sx::i32("y"), want = -1;
    for (int i = (int)m.size() - 1; i >= 0; --i) if (m[i] == y) want = i;
    SX_CHECK(v.indexOf(y) == want && v.contains(y) == (want != -1), "search finds the first equal element");
    SX_REACH("end");
}
extern "C" void vec_history() { history<Vec<int>>(); }
extern "C" void smallvec_history() { history<SmallVec<int, 2>>(); }
extern "C" void vec_insert_splice() {
    std::vector<int> m;
    auto v = fresh<Vec<int>>(m, 0, N);
    int  x = sx::i32("x"), at = sx::pick("at", 0, N);
    symx_assume(at <= (int)m.size());
    auto w = v;
    w.insert(at, x);
    auto m2 = m;
    m2.insert(m2.begin() + at, x);
    SX_CHECK(same(w, m2), "insertion shifts the rest");
    auto s = Vec<int>::Splice(x, Vec<int>(v), 7);
    std::vector<int> m3{x};
    m3.insert(m3.end(), m.begin(), m.end());
    m3.push_back(7);
    SX_CHECK(same(s, m3), "splicing concatenates items and sequences in order");
    SX_CHECK(same(Vec<int>(v.toSpan()), m), "copy through a view");
    SX_REACH("end");
}
// strict weak order agreeing with lexicographic order
extern "C" void vec_order() {
    std::vector<int> ma, mb;
    auto a = fresh<Vec<int>>(ma, 0, N), b = fresh<Vec<int>>(mb, 0, N);
    SX_CHECK((a < b) == std::lexicographical_compare(ma.begin(), ma.end(), mb.begin(), mb.end()), "order is lexicographic");
    SX_CHECK((a == b) == (ma == mb), "equality is elementwise");
    SX_CHECK(!(a < b && b < a), "order is asymmetric");
    auto desc = [](int x, int y) { return x > y; };
    SX_CHECK(a.lessThan(b, desc) == std::lexicographical_compare(ma.begin(), ma.end(), mb.begin(), mb.end(), desc), "custom order is lexicographic");
    SX_REACH("end");
}
template <class C, class E> static void slices(C& v, std::vector<E> const& m) {
    int n = (int)m.size();
    int a = sx::pick("a", -1, 4), b = sx::pick("b", -1, 4);
    bool ba = sx::pick("fromEndA", 0, 1), bb = sx::pick("fromEndB", 0, 1);
    int ra = ba ? n - a : a, rb = bb ? n - b : b;
    bool ok = 0 <= ra && ra < n && 0 <= rb && rb < n;
    if (ok && rb < ra) return; // reversed slices are not meaningful
    bool threw = false, good = true;
    int  got = -1;
    auto use = [&](auto const& sp) {
        got = (int)sp.size();
        for (int i = 0; i < got && ra + i < n; ++i) good = good & (sp[i] == m[ra + i]);
    };
    C const& cv = v;
    bool cst = sx::pick("const", 0, 1);
    try {
        if (ba && bb) { if (cst) use(cv.at(HSlice<BackwardsIndex, BackwardsIndex>{{a}, {b}})); else use(v.at(HSlice<BackwardsIndex, BackwardsIndex>{{a}, {b}})); }
        else if (ba) { if (cst) use(cv.at(HSlice<BackwardsIndex, int>{{a}, b})); else use(v.at(HSlice<BackwardsIndex, int>{{a}, b})); }
        else if (bb) { if (cst) use(cv.at(HSlice<int, BackwardsIndex>{a, {b}})); else use(v.at(HSlice<int, BackwardsIndex>{a, {b}})); }
        else { if (cst) use(cv.at(HSlice<int, int>{a, b})); else use(v.at(HSlice<int, int>{a, b})); }
    } catch (std::exception const&) { threw = true; }
    SX_CHECK(threw == !ok, "a slice that leaves the sequence is refused");
    if (!threw) { SX_CHECK(got == rb - ra + 1 && good, "a slice shows exactly its elements"); SX_REACH("slice"); }
    else SX_REACH("refused");
    if (ok) {
        if (bb) use(v[HSlice<int, BackwardsIndex>{ra, {b}}]); else use(v[HSlice<int, int>{ra, rb}]);
        SX_CHECK(got == rb - ra + 1 && good, "unchecked slice shows exactly its elements");
    }
}
extern "C" void vec_slices() { std::vector<int> m; auto v = fresh<Vec<int>>(m, 0, N); slices(v, m); }
extern "C" void smallvec_slices() { std::vector<int> m; auto v = fresh<SmallVec<int, 2>>(m, 0, N); slices(v, m); }
extern "C" void span_slices() { std::vector<int> m; auto v = fresh<Vec<int>>(m, 0, N); auto s = v.toSpan(); slices(s, m); }
extern "C" void str_slices() { std::vector<char> m; auto t = fresh<std::vector<char>>(m, 0, N); Str s(t.data(), (int)t.size()); slices(s, m); }
extern "C" void array_slices() {
    std::vector<int> m;
    Array<int, 3> v;
    for (int i = 0; i < 3; ++i) { v[i] = sx::i32("v"); m.push_back(v[i]); }
    slices(v, m);
    int i = sx::i32("i");
    SX_CHECK(v.has(i) == (0 <= i && i < 3), "array index presence");
    SX_CHECK(v.high() == 2 && v[BackwardsIndex{1}] == m[2] && v.at(BackwardsIndex{3}) == m[0], "array backward access");
}
// moving windows stay inside of the data and show the right elements
extern "C" void span_windows() {
    static int data[5];
    int        lo = sx::pick("lo", 0, 4), len = sx::pick("len", 0, 4);
    symx_assume(lo + len <= 5);
    Span<int> s(data + lo, len);
    int const* end = data + 4;
    int start = lo, size = len;
    bool gone = false;
    for (int k = 0; k < 2; ++k) {
        bool fix = sx::pick("fix", 0, 1);
        int  steps = sx::i32("steps");
        if (sx::pick("moveStart", 0, 1)) {
            symx_assume(0 <= steps);
            s.moveStart(steps, end, fix);
            if (gone || steps >= size) gone = true;
            else {
                start += steps;
                size = fix ? std::min(size, 5 - start) : size - steps;
            }
        } else if (fix) {
            symx_assume(0 <= steps);
            s.moveEnd(steps, end, true);
            if (gone || steps >= size) gone = true;
            else { start += steps; size = std::min(size, 5 - start); }
        } else if (!gone) {
            symx_assume(-1000000 < steps && steps < 1000000);
            s.moveEnd(steps, end, false);
            size = std::clamp(size + steps, 0, 5 - start);
        }
        if (gone) { size = 0; SX_CHECK(s.data() == nullptr && s.size() == 0 && s.empty() && !s.hasData(), "a window moved past its data is empty"); SX_REACH("gone"); }
        else {
            SX_CHECK(s.data() == data + start && s.size() == size, "window covers exactly the expected elements");
            SX_CHECK(data <= s.data() && s.data() + s.size() <= data + 5, "window stays inside of the data");
            SX_REACH("window");
        }
    }
}
extern "C" void seq_algorithms() {
    std::vector<int> m;
    auto v = fresh<Vec<int>>(m, 0, N);
    auto r = reversed(v);
    SX_CHECK(r.size() == (int)m.size(), "reversed keeps the size");
    for (int i = 0; i < (int)m.size(); ++i) SX_CHECK(r.at(i) == m[m.size() - 1 - i], "reversed order");
    auto s = sorted(v);
    for (int i = 1; i < s.size(); ++i) SX_CHECK(s.at(i - 1) <= s.at(i), "sorted order");
    int probe = sx::i32("probe"), c1 = 0, c2 = 0;
    for (int x : m) c1 += x == probe;
    for (int x : s) c2 += x == probe;
    SX_CHECK(c1 == c2, "sorting keeps every element");
    auto by = sortedBy(v, [](int x) { return -(long)x; });
    for (int i = 1; i < by.size(); ++i) SX_CHECK(by.at(i - 1) >= by.at(i), "sorted by key");
    auto mp = map(v, [](int x) { return (long)x + 1; });
    SX_CHECK(mp.size() == (int)m.size(), "mapping keeps the size");
    for (int i = 0; i < mp.size(); ++i) SX_CHECK(mp.at(i) == (long)m[i] + 1, "mapping applies to each element in order");
    SX_REACH("end");
}
extern "C" void seq_product() {
    std::vector<int> a, b;
    auto x = fresh<Vec<int>>(a, 0, 2);
    auto y = fresh<Vec<int>>(b, 0, 3);
    int  i = 0;
    for (auto [p, q] : carthesian(x, y)) {
        SX_CHECK(i < (int)(a.size() * b.size()), "product has no extra pairs");
        SX_CHECK(*p == a[i / b.size()] && *q == b[i % b.size()], "pairs come in row order");
        ++i;
    }
    SX_CHECK(i == (int)(a.size() * b.size()), "product has every pair");
    int k = 0;
    for (auto const& [idx, val] : enumerate(x)) { SX_CHECK(idx == k && val == a[k], "counted iteration"); ++k; }
    SX_CHECK(k == (int)a.size(), "counted iteration is complete");
    SX_REACH("end");
}
