#include "symx.hpp"
#include <hstd/stdlib/diffs.hpp>
#include <vector>
using namespace hstd;
using sek = SeqEditKind;
#ifdef TIER_THOROUGH
constexpr int MAXLEN = 4;
#else
constexpr int MAXLEN = 3;
#endif

static Vec<int> seq(const char* n) {
    Vec<int> r;
    int len = sx::pick(n, 0, MAXLEN);
    for (int i = 0; i < len; ++i) r.push_back(sx::i32(n));
    return r;
}
// each side lists all of its positions in order; kept pairs stand opposite
static void sides(Vec<ShiftedDiff::Item> const& o, Vec<ShiftedDiff::Item> const& n, Vec<int> const& a, Vec<int> const& b) {
    int i = 0, j = 0;
    for (int k = 0; k < std::max(o.size(), n.size()); ++k) {
        auto lk = k < o.size() ? o[k].kind : sek::None, rk = k < n.size() ? n[k].kind : sek::None;
        SX_CHECK((lk == sek::Keep) == (rk == sek::Keep), "kept items stand opposite each other");
        SX_CHECK(lk != sek::None || rk != sek::None, "no empty rows");
        if (lk != sek::None) { SX_CHECK(o[k].item == i && i < a.size() && lk != sek::Insert, "old items in order"); ++i; }
        if (rk != sek::None) { SX_CHECK(n[k].item == j && j < b.size() && rk != sek::Delete, "new items in order"); ++j; }
        if (lk == sek::Keep && i <= a.size() && j <= b.size()) SX_CHECK(a[i - 1] == b[j - 1], "kept items are equal");
    }
    SX_CHECK(i == a.size() && j == b.size(), "every item of both sides is shown");
}
extern "C" void shifted_from_edits() {
    auto a = seq("a"), b = seq("b");
    ShiftedDiff s{myersDiffEqCmp<int>(a, b)};
    sides(s.oldShifted, s.newShifted, a, b);
    SX_REACH("end");
}
extern "C" void shifted_from_replacements() {
    auto a = seq("a"), b = seq("b");
    ShiftedDiff s{levenshteinDistance<int>(a.toSpan(), b.toSpan()).operations};
    sides(s.oldShifted, s.newShifted, a, b);
    SX_REACH("end");
}
extern "C" void shifted_from_common() {
    auto a = seq("a"), b = seq("b");
    auto r = longestCommonSubsequence<int>(a, b, [](int const& x, int const& y) { return x == y; });
    ShiftedDiff s{r.at(0), a.size(), b.size()};
    SX_CHECK(s.oldShifted.size() == s.newShifted.size(), "both sides have the same length");
    sides(s.oldShifted, s.newShifted, a, b);
    SX_REACH("end");
}
extern "C" void padded_pairs() {
    auto a = seq("a"), b = seq("b");
    int fill = sx::i32("fill"), n = 0;
    for (auto const& r : zipToMax<int>(a, b, fill)) {
        bool l = n < a.size(), h = n < b.size();
        SX_CHECK(r.idx == n && r.lhsDefault == !l && r.rhsDefault == !h, "flags tell which side was filled in");
        SX_CHECK(r.lhs == (l ? a[n] : fill) && r.rhs == (h ? b[n] : fill), "values or the filler");
        ++n;
    }
    SX_CHECK(n == std::max(a.size(), b.size()), "the longer side is covered");
    SX_REACH("end");
}
// side by side: one row per diff entry, unchanged rows limited
extern "C" void formatted_rows() {
    auto a = seq("a"), b = seq("b");
    ShiftedDiff s{myersDiffEqCmp<int>(a, b)};
    FormattedDiff::Conf conf;
    conf.maxUnchanged = sx::pick("unchanged", 0, 2);
    FormattedDiff f{s, conf};
    SX_CHECK(f.isUnified() && f.unified().lhs.size() == f.unified().rhs.size(), "rows are paired");
    int at = 0, kept = 0;
    for (int k = 0; k < std::max(s.oldShifted.size(), s.newShifted.size()); ++k) {
        auto lk = k < s.oldShifted.size() ? s.oldShifted[k].kind : sek::None, rk = k < s.newShifted.size() ? s.newShifted[k].kind : sek::None;
        if (lk == sek::Keep && rk == sek::Keep) { if (kept >= conf.maxUnchanged) continue; ++kept; } else kept = 0;
        SX_CHECK(at < f.unified().lhs.size(), "no row is lost");
        auto const& l = f.unified().lhs[at];
        auto const& r = f.unified().rhs[at];
        SX_CHECK(l.prefix == lk && r.prefix == rk && l.isLhs && !r.isLhs, "rows keep their kinds and sides");
        SX_CHECK(l.empty() == (lk == sek::None) && (l.empty() || *l.index() == s.oldShifted[k].item), "old positions");
        SX_CHECK(r.empty() == (rk == sek::None) && (r.empty() || *r.index() == s.newShifted[k].item), "new positions");
        ++at;
    }
    SX_CHECK(at == f.unified().lhs.size(), "no row is made up");
    SX_REACH("end");
}
// grouped: kept rows once, deletions of a streak before its insertions, all present
extern "C" void grouped_rows() {
    auto a = seq("a"), b = seq("b");
    ShiftedDiff s{myersDiffEqCmp<int>(a, b)};
    FormattedDiff::Conf conf;
    conf.sideBySide = false;
    conf.groupLine  = true;
    FormattedDiff f{s, conf};
    SX_CHECK(!f.isUnified(), "grouped diffs are stacked");
    int i = 0, j = 0;
    for (auto const& l : f.stacked().elements) {
        if (l.isLhs) {
            SX_CHECK(l.originalIndex == i && (l.prefix == sek::Keep || l.prefix == sek::Delete), "old items in order");
            ++i;
            if (l.prefix == sek::Keep) ++j;
        } else {
            SX_CHECK(l.originalIndex == j && l.prefix == sek::Insert, "new items in order");
            ++j;
        }
    }
    SX_CHECK(i == a.size() && j == b.size(), "every item is shown");
    SX_REACH("end");
}
// printed rows show the items they stand for
extern "C" void printed_rows() {
    fmt::verif_enabled = true;
    Vec<Str> a, b;
    int la = sx::pick("la", 0, 2), lb = sx::pick("lb", 0, 2);
    for (int i = 0; i < la; ++i) a.push_back(Str(std::string("o") + (char)('a' + sx::pick("x", 0, 1))));
    for (int i = 0; i < lb; ++i) b.push_back(Str(std::string("o") + (char)('a' + sx::pick("y", 0, 1))));
    ShiftedDiff s{myersDiffEqCmp<Str>(a, b)};
    FormattedDiff::Conf conf;
    int cut = sx::pick("cut", 0, 3);
    if (cut) { conf.maxLhsSize = cut; conf.maxRhsSize = cut; }
    conf.formatLine = [&](FormattedDiff::DiffLine l) -> ColText {
        if (l.empty()) return ColText{};
        return ColText{(l.isLhs ? a : b).at(*l.index()).toBase()};
    };
    FormattedDiff f{s, conf};
    std::string out = f.format().toString(false);
    std::vector<std::string> lines;
    { std::string cur; for (char c : out) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; } }
    int rows = f.unified().lhs.size();
    if (rows == 0) { SX_CHECK(lines.size() == 2, "an empty diff says so"); SX_REACH("end"); return; }
    SX_CHECK((int)lines.size() == rows + 1, "one line per row");
    auto sz = [&](bool l) { int w = 0; for (auto const& r : l ? f.unified().lhs : f.unified().rhs) { if (!r.empty()) w = std::max(w, (cut ? std::min(cut, 2) : 2)); } return w; };
    int lw = sz(true), rw = sz(false);
    for (int k = 0; k < rows; ++k) {
        auto side = [&](FormattedDiff::DiffLine const& l, int w) {
            std::string p = toPrefix(l.prefix), t = l.empty() ? std::string() : (l.isLhs ? a : b).at(*l.index()).toBase();
            if (cut && (int)t.size() > cut) t.resize(cut);
            p.resize(2, ' ');
            t.resize(std::max<int>(w, t.size()), ' ');
            return p + t;
        };
        SX_CHECK(lines[k + 1] == side(f.unified().lhs[k], lw) + " " + side(f.unified().rhs[k], rw), "a line shows its two items");
    }
    SX_REACH("end");
}
// the matcher finds the pattern as a subsequence and reports its positions
extern "C" void fuzzy() {
    int np = sx::pick("np", 1, MAXLEN), ns = sx::pick("ns", 1, MAXLEN + 1);
    std::vector<int> p, s;
    for (int i = 0; i < np; ++i) p.push_back(sx::i32("p"));
    for (int i = 0; i < ns; ++i) s.push_back(sx::i32("s"));
    FuzzyMatcher m;
    m.recursionLimit = 100;
    m.isEqual = [&](int a, int b) { return p.at((size_t)a) == s.at((size_t)b); };
    {
        FuzzyMatcher::LinearScoreConfig c;
        m.matchScore = m.getLinearScore(c);
        c.start_score = -1000;
        c.sequential_bonus = -1000;
    }
    int score = 0, at = 0;
    for (int i = 0; i < ns && at < np; ++i) if (p[at] == s[i]) ++at;
    bool found = m.fuzzy_match(slice(0, np - 1), slice(0, ns - 1), score);
    SX_CHECK(found == (at == np), "a match is found exactly when the pattern is a subsequence");
    if (found) {
        SX_CHECK(m.matches.size() == np, "every pattern item has a position");
        int prev = -1;
        for (int i = 0; i < np; ++i) {
            int k = m.matches[i];
            SX_CHECK(prev < k && k < ns && p[i] == s[k], "positions increase and match");
            prev = k;
        }
        // best over all embeddings, by the documented scoring
        int best = -100000;
        for (int mask = 1; mask < (1 << ns); ++mask) {
            int k = 0, sc = 100, last = -2;
            bool ok = true;
            for (int i = 0; i < ns && ok; ++i) if (mask >> i & 1) {
                if (k >= np || !(p[k] == s[i])) { ok = false; break; }
                if (k == 0) sc += std::max(-5 * i, -15);
                if (k && last + 1 == i) sc += 15;
                if (i == 0) sc += 15;
                last = i; ++k;
            }
            if (ok && k == np) best = std::max(best, sc - (ns - np));
        }
        SX_CHECK(score == best, "the best scoring embedding is chosen");
    }
    SX_REACH("end");
}
extern "C" void line_diff() {
    fmt::verif_enabled = true;
    std::string a = sx::word("a", 0, 2, "xy"), b = sx::word("b", 0, 2, "xy");
    DiffFormatConf conf;
    conf.lineSplit = [](Str const& s) { Vec<Str> r; for (char c : s) r.push_back(Str(c)); return r; };
    auto [o, n] = formatLineDiff(Str(a), Str(b), conf);
    SX_CHECK(o.toString(false) == a && n.toString(false) == b, "both sides show their whole line");
    SX_REACH("end");
}
