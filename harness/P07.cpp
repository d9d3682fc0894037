#include "symx.hpp"
#include <hstd/ext/graphwrap.hpp>
#include <vector>

using Graph = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS>;
using VD    = boost::graph_traits<Graph>::vertex_descriptor;
using ED    = boost::graph_traits<Graph>::edge_descriptor;
using namespace hstd::ext;

struct Ev { int kind; VD a, b; };
static std::vector<Ev> got;

template <class V> static void install(V& v, unsigned set) {
    auto onV = [](int k) { return [k](VD const& x, Graph const&) { got.push_back({k, x, 0}); }; };
    auto onE = [](int k) { return [k](ED const& e, Graph const& g) { got.push_back({k, boost::source(e, g), boost::target(e, g)}); }; };
    V*   r   = &v;
    if (set & 1) r = &r->set_initialize_vertex(onV(0));
    if (set & 2) r = &r->set_discover_vertex(onV(1));
    if (set & 4) r = &r->set_examine_vertex(onV(2));
    if (set & 8) r = &r->set_examine_edge(onE(3));
    if (set & 16) r = &r->set_tree_edge(onE(4));
    if (set & 32) r = &r->set_non_tree_edge(onE(5));
    if (set & 64) r = &r->set_gray_target(onE(6));
    if (set & 128) r = &r->set_black_target(onE(7));
    if (set & 256) r = &r->set_finish_vertex(onV(8));
    SX_CHECK(r == &v, "setters chain on the same visitor");
}
template <class V> static void fire(V& v, int k, VD x, ED e, Graph const& g) {
    switch (k) {
        case 0: v.initialize_vertex(x, g); break;
        case 1: v.discover_vertex(x, g); break;
        case 2: v.examine_vertex(x, g); break;
        case 3: v.examine_edge(e, g); break;
        case 4: v.tree_edge(e, g); break;
        case 5: v.non_tree_edge(e, g); break;
        case 6: v.gray_target(e, g); break;
        case 7: v.black_target(e, g); break;
        default: v.finish_vertex(x, g); break;
    }
}
static bool isEdge(int k) { return k >= 3 && k <= 7; }
template <class V> static void dispatch() {
    Graph g(3);
    ED    e = boost::add_edge(1, 2, g).first;
    V     v;
    unsigned set = (unsigned)symx_sym("handlers", 9);
    install(v, set);
    got.clear();
    int n = 0;
    for (int i = 0; i < 2; ++i) {
        int k = sx::pick("event", 0, 8);
        V   copy(v); // algorithms take the visitor by value
        fire(copy, k, 2, e, g);
        if (set >> k & 1) {
            SX_CHECK((int)got.size() == n + 1, "an installed handler runs once per event");
            SX_CHECK(got[n].kind == k, "the event goes to its own handler");
            if (isEdge(k)) SX_CHECK(got[n].a == 1 && got[n].b == 2, "handler is given the edge of the event");
            else SX_CHECK(got[n].a == 2, "handler is given the vertex of the event");
            ++n;
        } else SX_CHECK((int)got.size() == n, "an event without a handler is ignored");
    }
    if (n == 2) SX_REACH("handled");
    if (n == 0) SX_REACH("ignored");
}
extern "C" void dispatch_bfs() { dispatch<boost_lambda_bfs_visitor<Graph>>(); }
extern "C" void dispatch_dfs() { dispatch<boost_lambda_dfs_visitor<Graph>>(); }
extern "C" void dispatch_dijkstra() { dispatch<boost_lambda_dijkstra_visitor<Graph>>(); }
extern "C" void dispatch_astar() { dispatch<boost_lambda_astar_visitor<Graph>>(); }
extern "C" void dispatch_bellman() {
    Graph g(3);
    ED    e = boost::add_edge(1, 2, g).first;
    boost_lambda_bellman_ford_visitor<Graph> v;
    unsigned set = (unsigned)symx_sym("handlers", 5);
    auto     onE = [](int k) { return [k](ED const& e, Graph const& g) { got.push_back({k, boost::source(e, g), boost::target(e, g)}); }; };
    auto*    r   = &v;
    if (set & 1) r = &r->set_examine_edge(onE(0));
    if (set & 2) r = &r->set_edge_relaxed(onE(1));
    if (set & 4) r = &r->set_edge_not_relaxed(onE(2));
    if (set & 8) r = &r->set_edge_minimized(onE(3));
    if (set & 16) r = &r->set_edge_not_minimized(onE(4));
    SX_CHECK(r == &v, "setters chain on the same visitor");
    got.clear();
    int  k = sx::pick("event", 0, 4);
    auto copy = v;
    if (k == 0) copy.examine_edge(e, g); else if (k == 1) copy.edge_relaxed(e, g); else if (k == 2) copy.edge_not_relaxed(e, g);
    else if (k == 3) copy.edge_minimized(e, g); else copy.edge_not_minimized(e, g);
    if (set >> k & 1) {
        SX_CHECK(got.size() == 1 && got[0].kind == k && got[0].a == 1 && got[0].b == 2, "the event goes once to its own handler with its edge");
        SX_REACH("handled");
    } else { SX_CHECK(got.empty(), "an event without a handler is ignored"); SX_REACH("ignored"); }
}
// a whole traversal of an arbitrary small graph reports every reachable vertex
// and edge through the installed handlers
extern "C" void traverse_bfs() {
    constexpr int N = 3;
    Graph         g(N);
    bool          adj[N][N];
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            adj[i][j] = i == j && i ? false : sx::boolean("edge");
            if (adj[i][j]) boost::add_edge(i, j, g);
        }
    boost_lambda_bfs_visitor<Graph> v;
    install(v, 511);
    got.clear();
    boost::breadth_first_search(g, 0, boost::visitor(v));
    bool reach[N] = {true};
    for (int r = 0; r < N; ++r)
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j)
                if (reach[i] && adj[i][j]) reach[j] = true;
    int cnt[9][N] = {}, tree[N] = {}, nt = 0, ex = 0, want = 0, gray = 0, black = 0, trees = 0;
    for (auto const& e : got) {
        if (isEdge(e.kind)) {
            SX_CHECK(adj[e.a][e.b] && reach[e.a], "reported edges are edges of the graph leaving reachable vertices");
            if (e.kind == 3) ++ex;
            if (e.kind == 4) { ++tree[e.b]; ++trees; }
            if (e.kind == 5) ++nt;
            if (e.kind == 6) ++gray;
            if (e.kind == 7) ++black;
        } else ++cnt[e.kind][e.a];
    }
    int reached = 0;
    for (int i = 0; i < N; ++i) {
        reached += reach[i];
        for (int j = 0; j < N; ++j) want += reach[i] && adj[i][j];
        SX_CHECK(cnt[0][i] == 1, "every vertex is initialised once");
        SX_CHECK(cnt[1][i] == reach[i] && cnt[2][i] == reach[i] && cnt[8][i] == reach[i], "reachable vertices are discovered, examined and finished once");
        SX_CHECK(tree[i] == (reach[i] && i != 0), "each reachable vertex but the start is entered by one tree edge");
    }
    SX_CHECK(ex == want && trees + nt == want && gray + black == nt && trees == reached - 1, "every edge out of the reachable part is examined once and classified once");
    SX_REACH("end");
}
