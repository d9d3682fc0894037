// Vertex hierarchies: every query agrees with the forest of parents it was built from.
#include <hstd/ext/graph/base/graph_base.hpp>
#include <symx.hpp>

using namespace hstd;
using namespace hstd::ext::graph;

#ifdef TIER_THOROUGH
static const int N = 7;
#else
static const int N = 6;
#endif

static VertexID vid(int i) { return VertexID(VertexID::FromIndex(i)); }

struct Forest {
    int  n;
    int  parent[N]; // -1: root
    bool live[N];
    bool   below(int v, int a) const {
        while (v >= 0 && v != a) { v = parent[v]; }
        return v == a;
    }
    std::vector<int> chain(int v) const {
        std::vector<int> r;
        for (v = parent[v]; v >= 0; v = parent[v]) { r.push_back(v); }
        return r;
    }
    int depth(int v) const { return (int)chain(v).size() + 1; }
};

/// Vertices are numbered so that parents come first, any forest can be numbered this way.
static Forest build(IdOnlyHierarchy& h, int n) {
    Forest f{n};
    for (int i = 0; i < n; ++i) {
        h.trackVertex(vid(i));
        f.live[i]   = true;
        f.parent[i] = sx::pick("parent", -1, i - 1);
    }
    for (int i = n; i-- > 0;) {
        if (f.parent[i] >= 0) { h.trackSubVertexRelation(vid(f.parent[i]), vid(i)); }
    }
    return f;
}

static void agrees(IdOnlyHierarchy& h, Forest const& f) {
    auto all = h.getAllVertices(), roots = h.getRootVertices();
    auto edges = h.getEdges();
    int  count = 0, rels = 0, level = 0;
    for (int v = 0; v < f.n; ++v) {
        bool root = f.live[v] && f.parent[v] < 0;
        SX_CHECK(all.contains(vid(v)) == f.live[v] && h.isTrackingVertex(vid(v)) == f.live[v], "the vertices are the ones added and not removed");
        SX_CHECK(roots.contains(vid(v)) == root, "the roots are the vertices without parent");
        if (!f.live[v]) {
            SX_CHECK(!h.getParentVertex(vid(v)) && h.getSubVertices(vid(v)).empty(), "removed vertices have no relations");
            continue;
        }
        ++count;
        level = std::max(level, f.depth(v));
        auto p = h.getParentVertex(vid(v));
        SX_CHECK(p.has_value() == (f.parent[v] >= 0), "only roots have no parent");
        auto in = h.getIncoming(vid(v));
        SX_CHECK((int)in.size() == (f.parent[v] >= 0), "one edge leads to a nested vertex");
        if (p) {
            ++rels;
            SX_CHECK(*p == vid(f.parent[v]), "the parent of a vertex");
            SX_CHECK(((IVertexHierarchy&)h).hasEdge(vid(f.parent[v]), vid(v)), "an edge leads from the parent to the vertex");
            for (auto const& e : in) {
                SX_CHECK(h.getSource(e) == *p && h.getTarget(e) == vid(v), "the edge to a nested vertex starts at its parent");
                SX_CHECK(edges.contains(e) && h.isTrackingEdge(e) && h.getOutgoing(*p).contains(e), "the edge is listed at both ends");
                SX_CHECK(e.isHierarchyEdge(), "nesting edges belong to the hierarchy");
            }
        }
        auto sub  = h.getSubVertices(vid(v));
        int  subs = 0;
        for (int o = 0; o < f.n; ++o) {
            bool is = f.live[o] && f.parent[o] == v;
            SX_CHECK(sub.contains(vid(o)) == is, "the nested vertices are the ones with this parent");
            SX_CHECK(((IVertexHierarchy&)h).hasEdge(vid(v), vid(o)) == is, "edges exist between parent and nested vertex only");
            subs += is;
        }
        SX_CHECK((int)sub.size() == subs && (int)h.getOutgoing(vid(v)).size() == subs, "no other nested vertices");
        auto want = f.chain(v);
        auto got  = h.getParentChain(vid(v));
        SX_CHECK(got.size() == want.size(), "the chain of parents is complete");
        for (size_t i = 0; i < want.size(); ++i) { SX_CHECK(got[i] == vid(want[i]), "the chain of parents starts at the closest"); }
    }
    SX_CHECK((int)all.size() == count && h.getVertexCount() == count, "vertices are counted");
    SX_CHECK((int)edges.size() == rels, "one edge per relation");
    SX_CHECK(h.getMaxNestingLevel() == level, "the nesting level is the length of the longest chain");
}

extern "C" void forests() {
    IdOnlyHierarchy h;
    auto            f = build(h, N - 1);
    agrees(h, f);
    SX_REACH("end");
}

extern "C" void vertex_removed() {
    IdOnlyHierarchy h;
    auto            f = build(h, N - 1);
    int             x = sx::pick("removed", 0, f.n - 1);
    auto            d = h.untrackVertex(vid(x));
    int             verts = 0, rels = 0;
    Forest          g = f;
    for (int v = 0; v < f.n; ++v) {
        bool gone = f.below(v, x);
        SX_CHECK(d.vertices.contains(vid(v)) == gone, "a vertex is removed together with everything nested in it");
        verts += gone;
        rels += gone && f.parent[v] >= 0;
        if (gone) {
            g.live[v]   = false;
            g.parent[v] = -1;
        }
    }
    SX_CHECK((int)d.vertices.size() == verts && (int)d.edges.size() == rels, "exactly the removed vertices and edges are reported");
    agrees(h, g);
    SX_REACH("end");
}

extern "C" void relation_moved() {
    IdOnlyHierarchy h;
    auto            f = build(h, N - 1);
    int             x = sx::pick("moved", 1, f.n - 1), to = sx::pick("to", -1, f.n - 1);
    symx_assume(f.parent[x] >= 0 && (to < 0 || !f.below(to, x)));
    bool refused = false;
    try {
        h.trackSubVertexRelation(vid(to < 0 ? 0 : to), vid(x));
    } catch (std::exception const&) { refused = true; }
    SX_CHECK(refused, "a vertex has one parent");
    h.untrackSubVertexRelation(vid(f.parent[x]), vid(x));
    if (to >= 0) { h.trackSubVertexRelation(vid(to), vid(x)); }
    f.parent[x] = to;
    agrees(h, f);
    SX_REACH("end");
}

extern "C" void crossings() {
    IdOnlyHierarchy h;
    auto            f = build(h, N);
    int             s = sx::pick("source", 0, f.n - 1), t = sx::pick("target", 0, f.n - 1);
    auto            got = h.getHierarchyCrossings(vid(s), vid(t));
    // up from the source to below the closest common ancestor, then down to the target
    std::vector<int> want, down;
    auto             within = [&](int v, int end) { return f.below(end, v); };
    for (int v = s; v >= 0 && !within(v, t); v = f.parent[v]) {
        if (v != s) { want.push_back(v); }
    }
    for (int v = t; v >= 0 && !within(v, s); v = f.parent[v]) {
        if (v != t) { down.push_back(v); }
    }
    want.insert(want.end(), down.rbegin(), down.rend());
    SX_CHECK(got.size() == want.size(), "an edge crosses the borders between its ends");
    for (size_t i = 0; i < want.size() && i < got.size(); ++i) { SX_CHECK(got[i] == vid(want[i]), "borders are crossed on the way up and then on the way down"); }
    SX_REACH("end");
}

extern "C" void ancestors() {
    IdOnlyHierarchy h;
    auto            f = build(h, N);
    int             a = sx::pick("a", 0, f.n - 1), b = sx::pick("b", 0, f.n - 1), c = sx::pick("c", 0, f.n - 1);
    symx_assume(a <= b && b <= c);
    VertexIDSet set;
    set.incl(vid(a));
    set.incl(vid(b));
    set.incl(vid(c));
    auto got  = h.getCommonAncestor(set);
    int  want = a;
    while (want >= 0 && !(f.below(b, want) && f.below(c, want))) { want = f.parent[want]; }
    SX_CHECK(got.has_value() == (want >= 0), "vertices of one tree have a common ancestor");
    if (got && want >= 0) { SX_CHECK(*got == vid(want), "the closest common ancestor"); }
    SX_CHECK(!h.getCommonAncestor(VertexIDSet{}).has_value(), "no vertices have no ancestor");
    auto             until = h.getParentChainUntil(vid(a), vid(b));
    std::vector<int> steps;
    for (int v = f.parent[a]; v >= 0 && v != b; v = f.parent[v]) { steps.push_back(v); }
    SX_CHECK(until.size() == steps.size(), "the chain stops at the requested vertex");
    for (size_t i = 0; i < steps.size() && i < until.size(); ++i) { SX_CHECK(until[i] == vid(steps[i]), "the chain lists the parents between"); }
    SX_REACH("end");
}


/// Edges are cut into segments at the borders they cross.
extern "C" void segments() {
    TrivialGraph g;
    auto         h     = std::make_shared<IdOnlyHierarchy>();
    auto         segs  = std::make_shared<TrivialEdgeCollection>(EdgeCollectionID{2});
    auto         ports = std::make_shared<TrivialPortCollection>();
    g.addHierarchy(h);
    fmt::verif_enabled = true;
    g.addCollection(segs);
    fmt::verif_enabled = false;
    static const char* const NAMES[] = {"a", "b", "c", "d", "e", "f", "g"};
    int                      n       = N - 2;
    for (int i = 0; i < n; ++i) { std::ignore = g.addVertex(std::string(NAMES[i])); }
    auto f = build(*h, n);
    int  s = sx::pick("source", 0, n - 1), t = sx::pick("target", 0, n - 1);
    auto e = g.addEdge(vid(s), vid(t), std::string("edge"));
    AutoSegmentingCollection as{segs.get(), ports.get(), h.get(), &g};
    fmt::verif_enabled = true;
    as.addEdge(e);
    fmt::verif_enabled = false;
    auto way  = h->getHierarchyCrossings(vid(s), vid(t));
    auto list = as.getSegments(e);
    auto ps   = as.getSegmentationPorts(e);
    SX_CHECK(list.size() == way.size() + 1 && ps.size() == way.size() && segs->getEdges().size() == list.size(), "one more segment than borders");
    for (int i = 0; i < (int)list.size(); ++i) {
        auto from = i == 0 ? vid(s) : way[i - 1], to = i == (int)way.size() ? vid(t) : way[i];
        SX_CHECK(segs->getSource(list[i]) == from && segs->getTarget(list[i]) == to, "the segments lead from border to border");
        SX_CHECK(as.getOriginalEdge(list[i]) == e, "a segment knows its edge");
        if (i > 0) {
            SX_CHECK(ports->getVertexForPort(ps[i - 1]) == from, "segments meet in a port of the crossed vertex");
            auto es = ports->getEdgeForPort(ps[i - 1]);
            SX_CHECK(es.size() == 2 && es.contains(list[i - 1]) && es.contains(list[i]), "a port joins two segments");
        }
    }
    SX_REACH("end");
}
