// Range trees find all ranges around a point; sequences are cut where their annotation changes.
#include <hstd/stdlib/RangeSegmentation.hpp>
#include <hstd/stdlib/RangeTree.hpp>
#include <symx.hpp>
#include <algorithm>
#include <vector>

using namespace hstd;

static void tree(int n, int lo, int hi) {
    Vec<Slice<int>> in;
    for (int i = 0; i < n; ++i) {
        int a = lo == hi ? sx::i32("a") : sx::range("a", lo, hi), b = lo == hi ? sx::i32("b") : sx::range("b", lo, hi);
        symx_assume(a <= b);
        in.push_back(Slice<int>{a, b});
    }
    RangeTree<int> t{in};
    int            p   = sx::i32("point");
    auto           got = t.getRanges(p);
    for (int i = 0; i < n; ++i) {
        int times = 0;
        for (auto const& r : got) {
            if (r.index == i) {
                ++times;
                SX_CHECK(r.first() == in[i].first && r.last() == in[i].last, "a found range is the one given");
            }
        }
        bool inside = in[i].first <= p && p <= in[i].last;
        SX_CHECK(times == (inside ? 1 : 0), "exactly the ranges around the point are found, each once");
    }
    for (auto const& r : got) { SX_CHECK(0 <= r.index && r.index < n, "only given ranges are found"); }
    SX_CHECK(t.getNodes(p).empty() == got.empty(), "nodes are found if ranges are");
    SX_REACH("end");
}
extern "C" void tree_small() { tree(sx::pick("n", 0, 2), 0, 0); }
extern "C" void tree_more() {
#ifdef TIER_THOROUGH
    tree(3, 0, 0);
#else
    tree(3, 0, 7);
#endif
}

using Tag = std::pair<int, std::vector<int>>;

static std::vector<Tag> tags_at(Vec<SequenceSegmentGroup> const& groups, int p) {
    std::vector<Tag> res;
    for (auto const& g : groups) {
        std::vector<int> kinds;
        for (auto const& s : g.segments) {
            if (s.first <= p && p <= s.last) { kinds.push_back(s.kind); }
        }
        if (!kinds.empty()) {
            std::sort(kinds.begin(), kinds.end());
            Tag t{g.kind, kinds};
            if (std::find(res.begin(), res.end(), t) == res.end()) { res.push_back(t); }
        }
    }
    std::sort(res.begin(), res.end());
    return res;
}

static void annotate(Vec<SequenceSegmentGroup> const& groups, int first, int last) {
    auto res  = annotateSequence(groups, first, last);
    int  next = first;
    std::vector<Tag> before;
    for (auto const& a : res) {
        SX_CHECK(next <= a.first && a.first <= a.last && a.last <= last, "chunks are inside, in order and do not overlap");
        for (; next < a.first; ++next) { SX_CHECK(tags_at(groups, next).empty(), "elements without a chunk have no annotation"); before.clear(); }
        std::vector<Tag> tags;
        for (auto const& t : a.annotations) {
            tags.push_back(Tag{t.groupKind, std::vector<int>(t.segmentKinds.begin(), t.segmentKinds.end())});
        }
        std::sort(tags.begin(), tags.end());
        SX_CHECK(!tags.empty(), "chunks have annotations");
        SX_CHECK(tags != before, "neighbouring chunks differ");
        for (; next <= a.last; ++next) { SX_CHECK(tags == tags_at(groups, next), "a chunk has the annotations of each of its elements"); }
        before = tags;
        for (int g = 0; g < 3; ++g) {
            for (int s = 0; s < 3; ++s) {
                bool has = false;
                for (auto const& t : tags) { has = has || (t.first == g && std::find(t.second.begin(), t.second.end(), s) != t.second.end()); }
                SX_CHECK(a.isAnnotatedWith(g, s) == has, "asking for an annotation");
            }
        }
    }
    for (; next <= last; ++next) { SX_CHECK(tags_at(groups, next).empty(), "elements after the last chunk have no annotation"); }
    SX_REACH("end");
}

// One group of segments, with any kinds.
extern "C" void segments_one_group() {
    Vec<SequenceSegmentGroup> groups;
    groups.push_back(SequenceSegmentGroup{.kind = sx::pick("g", 0, 2)});
    int n = sx::pick("n", 0, 2);
#ifdef TIER_THOROUGH
    const int top = 5;
#else
    const int top = 4;
#endif
    for (int i = 0; i < n; ++i) {
        int a = sx::range("a", 0, top), b = sx::range("b", 0, top);
        symx_assume(a <= b);
        groups[0].segments.push_back(SequenceSegment{.kind = sx::pick("k", 0, 1), .first = a, .last = b});
    }
    int first = sx::pick("first", 0, 1);
    annotate(groups, first, sx::pick("last", top - 1, top));
}
// Two groups with one segment each, and one with a second.
extern "C" void segments_two_groups() {
    Vec<SequenceSegmentGroup> groups;
#ifdef TIER_THOROUGH
    const int top = 4;
#else
    const int top = 3;
#endif
    for (int i = 0; i < 2; ++i) {
        groups.push_back(SequenceSegmentGroup{.kind = i == 0 ? 0 : sx::pick("g", 0, 1)});
        for (int k = 0; k <= i; ++k) {
            int a = sx::range("a", 0, top), b = sx::range("b", 0, top);
        symx_assume(a <= b);
            groups[i].segments.push_back(SequenceSegment{.kind = k, .first = a, .last = b});
        }
    }
    annotate(groups, 0, top);
}
