// Graphs: the edges, ports and attributes listed are exactly the ones added and not removed.
#include <hstd/ext/graph/base/graph_base.hpp>
#include <symx.hpp>

using namespace hstd;
using namespace hstd::ext::graph;

#ifdef TIER_THOROUGH
static const int EDGES = 3;
#else
static const int EDGES = 2;
#endif
static const int N = 3;

static VertexID vid(int i) { return VertexID(VertexID::FromIndex(i)); }

struct ModelEdge {
    EdgeID      id;
    int         from, to;
    bool        live;
    std::string name;
};
using Model = std::vector<ModelEdge>;

static void agrees(IEdgeCollection const& c, Model const& m, bool names) {
    int total = 0;
    for (auto const& e : m) { total += e.live; }
    auto all = c.getEdges();
    SX_CHECK((int)all.size() == total && c.getNumEdges() == total, "as many edges as were added and not removed");
    for (auto const& e : m) {
        SX_CHECK(all.contains(e.id) == e.live, "the edges are the ones added and not removed");
        SX_CHECK(c.isTrackingEdge(e.id) == e.live, "exactly the edges of the collection are tracked");
        if (e.live) { SX_CHECK(c.getSource(e.id) == vid(e.from) && c.getTarget(e.id) == vid(e.to), "an edge leads from its source to its target"); }
        if (names) {
            bool again = false;
            for (auto const& o : m) { again |= o.live && o.name == e.name; }
            SX_CHECK(c.hasEdgeStableId(e.name) == again, "exactly the edges of the collection are known by name");
            if (e.live) { SX_CHECK(c.getEdgeIDByStableId(e.name) == e.id, "an edge is found by its name"); }
        }
    }
    for (int v = 0; v < N; ++v) {
        auto out = c.getOutgoing(vid(v)), in = c.getIncoming(vid(v)), adj = c.getAdjacentEdges(vid(v));
        int  outs = 0, ins = 0, touching = 0;
        for (auto const& e : m) {
            SX_CHECK(out.contains(e.id) == (e.live && e.from == v), "the outgoing edges are the ones that start at the vertex");
            SX_CHECK(in.contains(e.id) == (e.live && e.to == v), "the incoming edges are the ones that end at the vertex");
            outs += e.live && e.from == v;
            ins += e.live && e.to == v;
            touching += e.live && (e.to == v || e.from == v);
        }
        SX_CHECK((int)out.size() == outs && (int)in.size() == ins && (int)adj.size() == touching, "no other edges touch the vertex");
        SX_CHECK(c.getOutDegree(vid(v)) == outs && c.getInDegree(vid(v)) == ins, "degrees count the edges");
        auto on = c.getOutNodes(vid(v)), inn = c.getInNodes(vid(v)), an = c.getAdjacentNodes(vid(v));
        for (int o = 0; o < N; ++o) {
            bool to = false, from = false;
            for (auto const& e : m) {
                to |= e.live && e.from == v && e.to == o;
                from |= e.live && e.from == o && e.to == v;
            }
            SX_CHECK(on.contains(vid(o)) == to && c.hasEdge(vid(v), vid(o)) == to, "the successors are the ends of the outgoing edges");
            SX_CHECK(inn.contains(vid(o)) == from, "the predecessors are the starts of the incoming edges");
            SX_CHECK(an.contains(vid(o)) == (to || from), "the neighbours are the vertices with an edge between");
        }
    }
}

static void subsets(IEdgeCollection const& c, Model const& m) {
    int                    mask = sx::pick("subset", 0, (1 << N) - 1);
    UnorderedSet<VertexID> set;
    for (int v = 0; v < N; ++v) {
        if (mask >> v & 1) { set.incl(vid(v)); }
    }
    auto full = c.getFullyIncludedEdges(set), part = c.getPartiallyIncludedEdges(set);
    for (auto const& e : m) {
        bool f = mask >> e.from & 1, t = mask >> e.to & 1;
        SX_CHECK(full.contains(e.id) == (e.live && f && t), "edges within a set of vertices");
        SX_CHECK(part.contains(e.id) == (e.live && (f || t)), "edges touching a set of vertices");
    }
}

static const char* const NAMES[] = {"a", "b", "c", "d", "e"};

static void add(TrivialEdgeCollection& c, Model& m) {
    int  from = sx::pick("from", 0, N - 1), to = sx::pick("to", 0, N - 1);
    auto name = std::string(NAMES[m.size()]);
    m.push_back({c.addEdge(vid(from), vid(to), name), from, to, true, name});
}

static void remove_one(IEdgeCollection& c, Model& m) {
    if (sx::boolean("vertex")) {
        int  v = sx::pick("v", 0, N - 1);
        auto d = c.untrackVertex(vid(v));
        int  n = 0;
        for (auto& e : m) {
            bool gone = e.live && (e.from == v || e.to == v);
            SX_CHECK(d.edges.contains(e.id) == gone, "removing a vertex reports the edges removed with it");
            n += gone;
            e.live &= !gone;
        }
        SX_CHECK((int)d.edges.size() == n, "only the edges at the vertex go with it");
    } else {
        auto& e = m[sx::pick("edge", 0, (int)m.size() - 1)];
        c.untrackEdge(e.id);
        e.live = false;
    }
}

extern "C" void edges_removed() {
    TrivialEdgeCollection c{EdgeCollectionID{1}};
    Model                 m;
    if (sx::boolean("tracked")) {
        for (int v = 0; v < N; ++v) { c.trackVertex(vid(v)); }
    }
    for (int i = 0; i < EDGES; ++i) { add(c, m); }
    remove_one(c, m);
    agrees(c, m, true);
    SX_REACH("end");
}

/// An edge or vertex is removed, and then an edge with the name of a removed one is added.
extern "C" void edges_again() {
    TrivialEdgeCollection c{EdgeCollectionID{1}};
    Model                 m;
    add(c, m);
    remove_one(c, m);
    auto name = std::string(NAMES[sx::pick("name", 0, 1)]);
    int  from = sx::pick("from2", 0, N - 1), to = sx::pick("to2", 0, N - 1);
    bool taken = m[0].live && m[0].name == name, refused = false;
    try {
        auto id = c.addEdge(vid(from), vid(to), name);
        m.push_back({id, from, to, true, name});
    } catch (std::exception const&) { refused = true; }
    SX_CHECK(refused == taken, "only names in use are refused");
    agrees(c, m, true);
    SX_REACH("end");
}

extern "C" void edges_subsets() {
    TrivialEdgeCollection c{EdgeCollectionID{1}};
    Model                 m;
    for (int i = 0; i < 2; ++i) { add(c, m); }
    subsets(c, m);
    SX_REACH("end");
}

extern "C" void edges_without_objects() {
    IdOnlyEdgeCollection c{EdgeCollectionID{1}};
    Model                m;
    for (int i = 0; i < EDGES; ++i) {
        int  from = sx::pick("from", 0, N - 1), to = sx::pick("to", 0, N - 1);
        auto id = EdgeID::FromMasked(i, c.getCollectionID());
        c.trackEdge(id, vid(from), vid(to));
        m.push_back({id, from, to, true, ""});
    }
    remove_one(c, m);
    agrees(c, m, false);
    SX_REACH("end");
}

/// The kind and the number of an edge are read back from its id.
extern "C" void edge_ids() {
    u16  base = sx::u16("base");
    u64  idx  = sx::u64("index");
    symx_assume(idx < (u64(1) << 48) - 1);
    auto h = EdgeCollectionID::FromHierarchy(base), c = EdgeCollectionID::FromCollection(base);
    SX_CHECK(h.isHierarchy() && !h.isCollection() && c.isCollection() && !c.isHierarchy(), "ids of hierarchies and collections are told apart");
    auto eh = EdgeID::FromMasked(idx, h), ec = EdgeID::FromMasked(idx, c);
    SX_CHECK(eh.isHierarchyEdge() && !eh.isCollectionEdge() && ec.isCollectionEdge() && !ec.isHierarchyEdge(), "edges know what they belong to");
    SX_CHECK(eh.getIndex() == idx && ec.getIndex() == idx, "the number of an edge");
    SX_CHECK(IEdgeProvider::edgeCategoryFromEdge(ec).t == c.t && IEdgeProvider::hierarchyIdFromEdge(eh).t == h.t, "the collection of an edge");
    u16  other = sx::u16("other");
    auto re    = EdgeID::FromMasked(eh, EdgeCollectionID::FromCollection(other));
    SX_CHECK(re.getIndex() == idx && re.isCollectionEdge(), "an edge id can be moved to another collection");
    SX_REACH("end");
}

extern "C" void ports() {
    TrivialPortCollection c;
    struct P {
        PortID id;
        int    vertex;
        bool   live;
    };
    struct Link {
        int  port, edge;
        bool source;
    };
    std::vector<P>    ps;
    std::vector<Link> ls;
    auto              eid = [](int i) { return EdgeID::FromMasked(i, EdgeCollectionID{1}); };
    for (int i = 0; i < 2; ++i) {
        int v = sx::pick("vertex", 0, 1);
        ps.push_back({c.addPort(vid(v), std::string("p")), v, true});
    }
    for (int i = 0; i < EDGES; ++i) {
        Link l{sx::pick("port", 0, 1), sx::pick("edge", 0, 1), sx::boolean("source")};
        bool taken = false, refused = false;
        for (auto const& o : ls) { taken |= o.port == l.port && o.edge == l.edge && o.source == l.source; }
        try {
            c.addEdgeToPort(ps[l.port].id, eid(l.edge), l.source);
        } catch (graph_error const&) { refused = true; }
        SX_CHECK(refused == taken, "a port is connected to the same end of an edge once");
        if (!taken) { ls.push_back(l); }
    }
    bool refused = false;
    try {
        c.addEdgeToPort(ps[0].id, IPortCollection::PortSpec{vid(1 - ps[0].vertex), eid(2), true});
    } catch (graph_error const&) { refused = true; }
    SX_CHECK(refused, "a port of another vertex is refused");
    int drop = sx::pick("drop", -1, 1);
    if (drop >= 0) {
        c.delPort(ps[drop].id);
        ps[drop].live = false;
        std::erase_if(ls, [&](auto const& l) { return l.port == drop; });
    }
    SX_CHECK((int)c.getAllEntries().size() == ps[0].live + ps[1].live, "the ports are the ones added and not removed");
    for (int v = 0; v < 2; ++v) {
        auto set = c.getPortsForVertex(vid(v));
        int  n   = 0;
        for (auto const& p : ps) {
            SX_CHECK(set.contains(p.id) == (p.live && p.vertex == v), "the ports of a vertex");
            n += p.live && p.vertex == v;
        }
        SX_CHECK((int)set.size() == n, "no other ports");
        for (int e = 0; e < 2; ++e) {
            for (bool src : {false, true}) {
                bool has = false;
                for (auto const& l : ls) { has |= l.edge == e && l.source == src && ps[l.port].vertex == v; }
                SX_CHECK(c.hasPortConnection(vid(v), eid(e), src) == has, "a connection between vertex and edge");
                SX_CHECK((src ? c.hasSourcePort(vid(v), eid(e)) : c.hasTargetPort(vid(v), eid(e))) == has, "a connection by end");
                bool found = true, right = false;
                try {
                    auto p = src ? c.getSourcePort(vid(v), eid(e)) : c.getTargetPort(vid(v), eid(e));
                    for (auto const& l : ls) { right |= l.edge == e && l.source == src && ps[l.port].vertex == v && ps[l.port].id == p; }
                } catch (graph_error const&) { found = false; }
                SX_CHECK(found == has && right == has, "the port of a connection");
            }
        }
    }
    for (int e = 0; e < 2; ++e) {
        auto [s, t] = c.getPortsForEdge(eid(e));
        bool hs = false, ht = false, rs_ = false, rt_ = false;
        for (auto const& l : ls) {
            if (l.edge != e) { continue; }
            (l.source ? hs : ht) = true;
            if (l.source) { rs_ |= ps[l.port].id == s; } else { rt_ |= ps[l.port].id == t; }
        }
        SX_CHECK(hs ? rs_ : s.isNil(), "the port at the source of an edge");
        SX_CHECK(ht ? rt_ : t.isNil(), "the port at the target of an edge");
    }
    for (int p = 0; p < 2; ++p) {
        if (!ps[p].live) { continue; }
        SX_CHECK(c.getVertexForPort(ps[p].id) == vid(ps[p].vertex), "the vertex of a port");
        auto set = c.getEdgeForPort(ps[p].id);
        int  src = 0, dst = 0;
        for (int e = 0; e < 2; ++e) {
            bool has = false;
            for (auto const& l : ls) {
                if (l.port == p && l.edge == e) {
                    has = true;
                    (l.source ? src : dst) += 1;
                }
            }
            SX_CHECK(set.contains(eid(e)) == has, "the edges of a port");
        }
        bool answered = true, value = false;
        try {
            value = c.isSourcePort(ps[p].id);
        } catch (graph_error const&) { answered = false; }
        SX_CHECK(answered == ((src > 0) != (dst > 0)), "a port has a direction when all of its edges agree");
        if (answered) { SX_CHECK(value == (src > 0) && c.isTargetPort(ps[p].id) == (dst > 0), "the direction of a port"); }
    }
    SX_REACH("end");
}

struct AttrA : IAttribute {
    int v;
    explicit AttrA(int v) : v{v} {}
    std::string getRepr() const override { return "A"; }
};
struct AttrB : IAttribute {
    int v;
    explicit AttrB(int v) : v{v} {}
    std::string getRepr() const override { return "B"; }
};

/// Attributes of a vertex, with any values, added in any of the three ways.
extern "C" void attributes() {
    TrivialVertex                         v{"v"};
    std::vector<std::pair<bool, int>>     model;
    for (int i = 0; i < 3; ++i) {
        bool a     = sx::boolean("a");
        int  value = sx::i32("value"), how = sx::pick("how", 0, 3);
        bool first = true;
        for (auto const& m : model) { first &= m.first != a; }
        SPtr<IAttribute> p = a ? SPtr<IAttribute>(std::make_shared<AttrA>(value)) : SPtr<IAttribute>(std::make_shared<AttrB>(value));
        if (how == 0) {
            v.addAttribute(p);
            model.push_back({a, value});
        } else if (how == 1 || how == 2) {
            bool refused = false;
            try {
                if (how == 1) {
                    v.addUniqueAttribute(p);
                } else if (a) {
                    v.addUniqueAttribute(std::make_shared<AttrA>(value));
                } else {
                    v.addUniqueAttribute(std::make_shared<AttrB>(value));
                }
            } catch (graph_error const&) { refused = true; }
            SX_CHECK(refused == !first, "a second attribute of a unique kind is refused");
            if (first) { model.push_back({a, value}); }
        } else {
            v.addOrResetUniqueAttribute(p);
            for (auto& m : model) {
                if (m.first == a) { m.second = value; }
            }
            if (first) { model.push_back({a, value}); }
        }
    }
    auto got = v.getAttributes();
    SX_CHECK(got.size() == model.size(), "as many attributes as were set");
    std::vector<int> as, bs;
    for (auto const& m : model) { (m.first ? as : bs).push_back(m.second); }
    auto la = v.getAllAttributes<AttrA>();
    auto lb = v.getAllAttributes<AttrB>();
    SX_CHECK(la.size() == as.size() && lb.size() == bs.size(), "attributes by kind");
    for (size_t i = 0; i < as.size(); ++i) { SX_CHECK(la[i]->v == as[i], "attributes keep value and order"); }
    for (size_t i = 0; i < bs.size(); ++i) { SX_CHECK(lb[i]->v == bs[i], "attributes keep value and order"); }
    SX_CHECK(v.hasOptionalAttribute<AttrA>() == !as.empty(), "presence of an attribute");
    if (!as.empty()) { SX_CHECK(v.getOptionalAttribute<AttrA>().value()->v == as[0], "the first attribute of a kind"); }
    bool one = true;
    int  val = 0;
    try {
        val = v.getUniqueAttribute<AttrA>()->v;
    } catch (std::exception const&) { one = false; }
    SX_CHECK(one == (as.size() == 1), "the unique attribute exists when there is exactly one");
    if (one) { SX_CHECK(val == as[0], "the unique attribute"); }
    SX_REACH("end");
}

/// A whole graph with one edge collection and one hierarchy over some of the vertices.
extern "C" void whole_graph() {
    TrivialGraph g;
    auto         h = std::make_shared<IdOnlyHierarchy>();
    g.addHierarchy(h);
    std::vector<VertexID> v;
    for (int i = 0; i < N; ++i) { v.push_back(g.addVertex(std::string(NAMES[i]))); }
    int s = sx::pick("source", 0, N - 1), t = sx::pick("target", 0, N - 1);
    int nested = sx::pick("nested", 0, 2); // vertices of the hierarchy: none, 0 and 1, all
    auto e = g.addEdge(v[s], v[t], std::string("edge"));
    if (nested >= 1) {
        h->trackVertex(v[0]);
        h->trackVertex(v[1]);
        h->trackSubVertexRelation(v[0], v[1]);
    }
    if (nested == 2) {
        h->trackVertex(v[2]);
        h->trackSubVertexRelation(v[1], v[2]);
    }
    SX_CHECK(g.getVertexCount() == N && g.getSummedEdgeCount() == 1 + nested, "vertices and edges are counted");
    SX_CHECK(g.getSource(e) == v[s] && g.getTarget(e) == v[t] && g.getEdgeIDByStableId("edge") == e, "the edge");
    int gone = sx::pick("gone", 0, N - 1);
    auto d   = g.untrackVertex(v[gone]);
    bool in_h = nested == 2 || (nested == 1 && gone < 2);
    SX_CHECK(d.contains(h->getCollectionID()) == in_h, "the hierarchies that had the vertex report what went with it");
    for (int i = 0; i < N; ++i) {
        SX_CHECK(g.isTrackingVertex(v[i]) == (i != gone) && g.hasVertexStableId(NAMES[i]) == (i != gone), "the vertices of the graph are the ones not removed");
        if (i != gone) { SX_CHECK(g.getVertexIDByStableId(NAMES[i]) == v[i] && g.getStableId(v[i]) == NAMES[i], "vertices are found by name"); }
        bool left = nested > 0 && i <= nested && i < gone;
        SX_CHECK(h->isTrackingVertex(v[i]) == left || (nested == 1 && gone == 2), "vertices below the removed one leave the hierarchy");
    }
    bool edge = s != gone && t != gone;
    SX_CHECK(g.edges->isTrackingEdge(e) == edge, "edges at the removed vertex are removed");
    int  rels = nested == 0 ? 0 : std::min(nested, gone == 0 ? 0 : gone - 1);
    if (nested == 1 && gone == 2) { rels = 1; }
    SX_CHECK(g.getSummedEdgeCount() == edge + rels, "only edges between remaining vertices remain");
    for (int i = 0; i < N; ++i) {
        int out = edge && s == i, in = edge && t == i;
        out += i < rels;
        in += i > 0 && i <= rels;
        SX_CHECK((int)g.getOutgoing(v[i]).size() == out && g.getOutDegree(v[i]) == out, "outgoing edges over all collections");
        SX_CHECK((int)g.getIncoming(v[i]).size() == in && g.getInDegree(v[i]) == in, "incoming edges over all collections");
    }
    SX_REACH("end");
}
