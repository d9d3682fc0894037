#include "symx.hpp"
#include <hstd/stdlib/diffs.hpp>
#include <vector>
using namespace hstd;
#ifdef TIER_THOROUGH
constexpr int MAXLEN = 5;
#else
constexpr int MAXLEN = 4;
#endif

static Vec<int> seq(const char* n) {
    Vec<int> r;
    int len = sx::pick(n, 0, MAXLEN);
    for (int i = 0; i < len; ++i) r.push_back(sx::i32(n));
    return r;
}
// length of the longest common subsequence, and edit distance with unit
// costs, by the textbook recurrences
static int lcsLen(Vec<int> const& a, Vec<int> const& b) {
    int t[MAXLEN + 1][MAXLEN + 1] = {};
    for (int i = 1; i <= a.size(); ++i)
        for (int j = 1; j <= b.size(); ++j)
            t[i][j] = a[i - 1] == b[j - 1] ? t[i - 1][j - 1] + 1 : std::max(t[i - 1][j], t[i][j - 1]);
    return t[a.size()][b.size()];
}
static int editLen(Vec<int> const& a, Vec<int> const& b) {
    int t[MAXLEN + 1][MAXLEN + 1] = {};
    for (int i = 0; i <= a.size(); ++i)
        for (int j = 0; j <= b.size(); ++j) {
            if (i == 0 || j == 0) { t[i][j] = i + j; continue; }
            t[i][j] = std::min({t[i - 1][j] + 1, t[i][j - 1] + 1, t[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1)});
        }
    return t[a.size()][b.size()];
}
// the edit script walks both sequences from start to end; returns the cost
static int replay(Vec<SeqEdit> const& ops, Vec<int> const& a, Vec<int> const& b) {
    int i = 0, j = 0, cost = 0;
    for (auto const& op : ops) {
        switch (op.kind) {
            case SeqEditKind::Keep:
                SX_CHECK(op.sourcePos == i && op.targetPos == j && i < a.size() && j < b.size(), "kept items are taken in order");
                SX_CHECK(a[i] == b[j], "kept items are equal");
                ++i; ++j; break;
            case SeqEditKind::Insert:
                SX_CHECK(op.targetPos == j && j < b.size(), "inserted items are taken in order");
                ++j; ++cost; break;
            case SeqEditKind::Delete:
                SX_CHECK(op.sourcePos == i && i < a.size(), "deleted items are taken in order");
                ++i; ++cost; break;
            case SeqEditKind::Replace:
                SX_CHECK(op.sourcePos == i && op.targetPos == j && i < a.size() && j < b.size(), "replaced items are taken in order");
                ++i; ++j; ++cost; break;
            default: SX_CHECK(false, "only real operations");
        }
    }
    SX_CHECK(i == a.size() && j == b.size(), "the script covers both sequences");
    return cost;
}
extern "C" void myers() {
    auto a = seq("a"), b = seq("b");
    auto ops = myersDiffEqCmp<int>(a, b);
    for (auto const& op : ops) SX_CHECK(op.kind != SeqEditKind::Replace, "insertions and deletions only");
    SX_CHECK(replay(ops, a, b) == a.size() + b.size() - 2 * lcsLen(a, b), "the script is shortest");
    SX_REACH("end");
}
extern "C" void levenshtein() {
    auto a = seq("a"), b = seq("b");
    auto r = levenshteinDistance<int>(a.toSpan(), b.toSpan());
    int  d = editLen(a, b);
    SX_CHECK(r.score == d, "the score is the edit distance");
    SX_CHECK(replay(r.operations, a, b) == d, "the script has that many edits");
    SX_REACH("end");
}
extern "C" void common_subsequence() {
    auto a = seq("a"), b = seq("b");
    auto all = longestCommonSubsequence<int>(a, b, [](int const& x, int const& y) { return x == y; });
    SX_CHECK(all.size() >= 1, "there is a result");
    for (auto const& r : all) {
        SX_CHECK(r.lhsIndex.size() == r.rhsIndex.size(), "both sides have the same length");
        SX_CHECK(r.lhsIndex.size() == lcsLen(a, b), "the subsequence is longest");
        for (int i = 0; i < r.lhsIndex.size(); ++i) {
            int x = r.lhsIndex[i], y = r.rhsIndex[i];
            SX_CHECK(0 <= x && x < a.size() && 0 <= y && y < b.size(), "positions exist");
            SX_CHECK(a[x] == b[y], "paired items are equal");
            if (i) SX_CHECK(r.lhsIndex[i - 1] < x && r.rhsIndex[i - 1] < y, "positions increase");
        }
    }
    SX_REACH("end");
}
