// P28: comparisons of two trees pair nodes one to one and list exactly what
// differs.
#include <symx.hpp>
#include <hstd/ext/astdiff/astdiff.hpp>
#include <hstd/ext/astdiff/astdiff_eager.hpp>
#include <hstd/ext/logger.hpp>
#include <vector>

// nothing is logged
bool hstd::log::is_log_accepted(severity_level) { return false; }

using namespace hstd::ext::diff;
using hstd::Vec;

#ifdef TIER_THOROUGH
constexpr int FACTS = 7, PAIRS = 4, BEST = 4, EDITS = 5, FLAT = 3;
#else
constexpr int FACTS = 6, PAIRS = 3, BEST = 3, EDITS = 4, FLAT = 3;
#endif

namespace {
/// Nodes in preorder
struct Tree : NodeStore {
    std::vector<int>              parent, label;
    std::vector<std::vector<int>> sub;
    int                           base = 0;

    int  size() const { return parent.size(); }
    int  at(Id const& id) const { return id.ToNumber() - base; }
    bool inside(int n, int root) const {
        while (n > root) { n = parent.at(n); }
        return n == root;
    }

    int         getSubnodeCount(Id const& id) override { return sub.at(at(id)).size(); }
    Id          getSubnodeAt(Id const& n, int i) override { return Id::FromNumber(base + sub.at(at(n)).at(i)); }
    Id          getRoot() override { return Id::FromNumber(base); }
    ASTNodeKind getNodeKind(Id const& n) const override { return kind(at(n)); }
    int         kind(int n) const { return label.at(n) == 2; }
};

/// Every ordered tree of at most that many nodes, labels below `labels`
Tree anyTree(int most, int base, int labels) {
    Tree t;
    t.base = base;
    int n  = sx::pick("nodes", 1, most);
    for (int i = 0; i < n; ++i) {
        int p = -1;
        if (i != 0) {
            p = i - 1;
            while (p != 0 && sx::pick("up", 0, 1)) { p = t.parent.at(p); }
        }
        t.parent.push_back(p);
        t.label.push_back(labels == 1 ? 0 : sx::range("label", 0, labels - 1));
        t.sub.emplace_back();
        if (p != -1) { t.sub.at(p).push_back(i); }
    }
    return t;
}

Tree const* whole[2];
int         labelOf(NodeStore::Id const& id) {
    Tree const* t = whole[id.ToNumber() >= 100];
    return t->label.at(t->at(id));
}

ComparisonOptions options(double cost = 1) {
    ComparisonOptions o;
    o.isMatchingAllowed = [](Node const& a, Node const& b) { return a.getNodeKind() == b.getNodeKind(); };
    o.areValuesEqual    = [](Node const& a, Node const& b) { return labelOf(a.ASTNode) == labelOf(b.ASTNode); };
    o.getUpdateCost     = [cost](Node const&, Node const&) { return cost; };
    return o;
}
} // namespace

extern "C" void facts() {
    Tree t = anyTree(FACTS, 0, 1);
    whole[0] = &t;
    auto       o = options();
    SyntaxTree s{o};
    s.FromNode(&t);
    int n = t.size();
    SX_CHECK(s.getSize() == n && s.getRootId() == 0, "every node is in the tree once");
    std::vector<int> post, breadth{0}, leaves;
    auto             walk = [&](auto& self, int i) -> void {
        for (int c : t.sub.at(i)) { self(self, c); }
        post.push_back(i);
    };
    walk(walk, 0);
    for (int i = 0; i < (int)breadth.size(); ++i) {
        for (int c : t.sub.at(breadth.at(i))) { breadth.push_back(c); }
    }
    int ids = 0;
    for (NodeIdx id : s.nodeIds()) { SX_CHECK(id == ids++, "all ids are listed in order"); }
    SX_CHECK(ids == n, "all ids are listed");
    for (int i = 0; i < n; ++i) {
        Node const& d = s.getNode(NodeIdx(i));
        SX_CHECK(d.ASTNode == NodeStore::Id::FromNumber(i), "a node stands for its original");
        SX_CHECK(d.Parent == t.parent.at(i) && s.getParent(i) == t.parent.at(i), "a node knows its parent");
        SX_CHECK(d.Subnodes.size() == (int)t.sub.at(i).size(), "a node has all of its subnodes");
        int depth = 0, last = i, height = 1, count = 0, first = i;
        for (int p = t.parent.at(i); p != -1; p = t.parent.at(p)) { ++depth; }
        for (int k = 0; k < n; ++k) {
            SX_CHECK(s.isInSubtree(k, i) == t.inside(k, i), "a node is in the subtree of its ancestors only");
            if (t.inside(k, i)) {
                ++count;
                last  = k;
                int h = 1;
                for (int p = k; p != i; p = t.parent.at(p)) { ++h; }
                if (h > height) { height = h; }
            }
        }
        while (!t.sub.at(first).empty()) { first = t.sub.at(first).front(); }
        SX_CHECK(d.Depth == depth && d.Height == height, "depth and height are exact");
        SX_CHECK(s.getNumberOfDescendants(i) == count, "the size of the subtree is exact");
        SX_CHECK(d.RightMostDescendant == last && d.LeftMostDescendant == first, "first leaf and last node are exact");
        SX_CHECK(d.isLeaf() == t.sub.at(i).empty(), "leaves have no subnodes");
        if (d.isLeaf()) { leaves.push_back(i); }
        SX_CHECK(s.isValidNodeIdx(i) && !s.isValidNodeIdx(n) && !s.isValidNodeIdx(-1), "only nodes are valid");
        for (bool self : {true, false}) {
            auto             chain = s.getParentIdChain(i, self);
            std::vector<int> model;
            for (int p = self ? i : t.parent.at(i); p != -1; p = t.parent.at(p)) { model.push_back(p); }
            SX_CHECK(chain.size() == (int)model.size(), "the chain of parents is complete");
            auto base = s.getBaseParentIdChain(i, self);
            SX_CHECK(base.size() == (int)model.size(), "the chain of original parents is complete");
            for (int k = 0; k < (int)model.size(); ++k) {
                SX_CHECK(chain.at(k) == model.at(k), "the chain of parents goes up");
                SX_CHECK(base.at(k) == NodeStore::Id::FromNumber(model.at(k)), "the chain of originals goes up");
            }
        }
        auto path = s.getNodePath(i);
        SX_CHECK(path.size() == depth + 1 && path.at(0).isRoot(), "a path starts at the root");
        int at = 0;
        for (int k = 1; k < path.size(); ++k) {
            SX_CHECK(path.at(k).under == at && !path.at(k).isRoot(), "a path goes down");
            at = t.sub.at(at).at(path.at(k).position);
            SX_CHECK(s.getNode(path.at(k)).ASTNode == NodeStore::Id::FromNumber(at), "path steps find their node");
        }
        SX_CHECK(at == i, "a path ends at its node");
        SX_CHECK(post.at(s.PostorderIds.at(i)) == i, "postorder is exact");
        SX_CHECK(s.NodesBfs.at(i) == breadth.at(i), "breadth first order is exact");
        auto sub = getSubtreePostorder(s, i);
        SX_CHECK(sub.size() == count && sub.back() == i, "subtrees are walked completely");
        auto level = getSubtreeBfs(s, i);
        SX_CHECK(level.size() == count && level.front() == i, "subtrees are walked by level completely");
    }
    SX_CHECK(s.Leaves.size() == (int)leaves.size(), "the leaves are complete");
    for (int i = 0; i < (int)leaves.size(); ++i) { SX_CHECK(s.Leaves.at(i) == leaves.at(i), "the leaves are in order"); }
    SX_REACH("end");
}

static void compare(Tree& a, Tree& b, ComparisonOptions const& o) {
    whole[0] = &a;
    whole[1] = &b;
    SyntaxTree s{o}, d{o};
    s.FromNode(&a);
    d.FromNode(&b);
    ASTDiff diff{s, d, o};
    using K = ASTDiff::Change::Kind;
    std::vector<int> to(a.size(), -1);
    for (int i = 0; i < a.size(); ++i) {
        NodeIdx j = diff.getMapped(s, i);
        if (j.isInvalid()) {
            auto ch = diff.getChangeFromSrc(i);
            SX_CHECK(ch.getKind() == K::Delete && ch.src == i && ch.dst.isInvalid(), "a node without partner is deleted");
        } else {
            SX_CHECK(d.isValidNodeIdx(j) && diff.getMapped(d, j) == i, "partners belong to each other only");
            SX_CHECK(a.kind(i) == b.kind(j), "only nodes that may be paired are");
            to.at(i) = j;
        }
    }
    int changed = 0, deleted = 0;
    for (int j = 0; j < b.size(); ++j) {
        NodeIdx i  = diff.getMapped(d, j);
        auto    ch = diff.getChangeFromDst(j);
        SX_CHECK(ch.src == i && ch.dst == j, "a change names its nodes");
        if (ch.getKind() != K::None) { ++changed; }
        auto down = ch.getDstChain();
        SX_CHECK(!down.empty() && down.at(0) == j && down.back() == 0, "the chain of the new node is in the new tree");
        if (i.isInvalid()) {
            SX_CHECK(ch.getKind() == K::Insert, "a new node without partner is inserted");
            SX_CHECK(ch.getInsert().to.under == b.parent.at(j), "it is inserted under its parent");
            int place = 0;
            while (b.parent.at(j) != -1 && b.sub.at(b.parent.at(j)).at(place) != j) { ++place; }
            SX_CHECK(ch.getInsert().to.position == place, "it is inserted at its place");
            continue;
        }
        SX_CHECK(to.at(i) == j, "partners are the same from both sides");
        bool equal = a.label.at(i) == b.label.at(j);
        int  pa = a.parent.at(i), pb = b.parent.at(j);
        bool under = (pa == -1 && pb == -1) || (pa != -1 && pb != -1 && to.at(pa) == pb);
        SX_CHECK(ch.getKind() != K::Insert && ch.getKind() != K::Delete, "paired nodes stay");
        if (ch.getKind() == K::Move) {
            SX_CHECK(ch.getMove().update == !equal, "a moved node says whether its value changed");
            SX_CHECK(ch.getMove().from.under == pa && ch.getMove().to.under == pb, "a move goes from parent to parent");
        } else {
            SX_CHECK(under, "a node that did not move kept its parent");
            SX_CHECK((ch.getKind() == K::None) == equal, "an unmoved node changed exactly when its value did");
        }
        SX_CHECK(diff.getChangeFromSrc(i).getKind() == ch.getKind(), "both sides tell the same change");
    }
    for (int i = 0; i < a.size(); ++i) { deleted += to.at(i) == -1; }
    SX_CHECK(diff.getAllChanges().size() == changed + deleted, "exactly the changes are listed");
    SX_CHECK(diff.getAllChanges(false).size() == b.size() + deleted, "all nodes are listed on request");
}

static ComparisonOptions anyPass() {
    auto o      = options();
    o.MinHeight = sx::pick("height", 0, 2);
    if (sx::pick("stop", 0, 1)) { o.StopAfterTopDown = true; }
    return o;
}
extern "C" void changes() {
    Tree a = anyTree(PAIRS, 0, 3), b = anyTree(PAIRS, 100, 3);
    compare(a, b, anyPass());
    SX_REACH("end");
}
extern "C" void changes_deeper() {
    Tree a = anyTree(PAIRS + 2, 0, 1), b = anyTree(PAIRS + 1, 100, 1);
    compare(a, b, anyPass());
    SX_REACH("end");
}
static Tree flat(int most, int base) {
    Tree t;
    t.base = base;
    t.sub.emplace_back();
    t.parent.push_back(-1);
    t.label.push_back(0);
    int n = sx::pick("nodes", 0, most);
    for (int i = 1; i <= n; ++i) {
        t.parent.push_back(0);
        t.label.push_back(sx::range("label", 0, 3));
        t.sub.emplace_back();
        t.sub.at(0).push_back(i);
    }
    return t;
}
extern "C" void changes_flat() {
    Tree a = flat(FLAT, 0), b = flat(FLAT, 100);
    compare(a, b, anyPass());
    SX_REACH("end");
}
extern "C" void same_tree() {
    Tree a = anyTree(PAIRS + 2, 0, 3), b = a;
    b.base = 100;
    auto o = options();
    o.MinHeight = sx::pick("height", 0, 2);
    whole[0]    = &a;
    whole[1]    = &b;
    SyntaxTree s{o}, d{o};
    s.FromNode(&a);
    d.FromNode(&b);
    ASTDiff diff{s, d, o};
    SX_CHECK(diff.getAllChanges().empty(), "a tree does not differ from itself");
    auto edits = getEdits(
        a, b, [](NodeStore::Id const& x, NodeStore::Id const& y) { return labelOf(x) == labelOf(y); });
    SX_CHECK(edits.empty(), "no edit makes a tree into itself");
    SX_REACH("end");
}

extern "C" void best_pairs() {
    Tree a = anyTree(BEST, 0, 3), b = anyTree(BEST, 100, 3);
    whole[0] = &a;
    whole[1] = &b;
    auto o             = options(sx::pick("update", 1, 3));
    o.DeletionCost     = sx::pick("delete", 1, 2);
    o.InsertionCost    = sx::pick("insert", 1, 2);
    o.StopAfterTopDown = true;
    o.MinHeight        = 100;
    SyntaxTree s{o}, d{o};
    s.FromNode(&a);
    d.FromNode(&b);
    ASTDiff            diff{s, d, o};
    ZhangShashaMatcher m{o, diff, s, d, 0, 0};
    auto               pairs = m.getMatchingNodes();
    std::vector<int>   to(a.size(), -1);
    auto               fits = [&](int i, int j) {
        if (a.kind(i) != b.kind(j)) { return false; }
        for (int k = 0; k < a.size(); ++k) {
            int l = to.at(k);
            if (l == -1 || k == i) { continue; }
            if (l == j || (k < i) != (l < j) || a.inside(i, k) != b.inside(j, l) || a.inside(k, i) != b.inside(l, j)) {
                return false;
            }
        }
        return true;
    };
    auto cost = [&]() {
        double c     = 0;
        int    count = 0;
        for (int i = 0; i < a.size(); ++i) {
            if (to.at(i) != -1) {
                ++count;
                if (a.label.at(i) != b.label.at(to.at(i))) { c += o.getUpdateCost(s.getNode(i), d.getNode(to.at(i))); }
            }
        }
        return c + (a.size() - count) * o.DeletionCost + (b.size() - count) * o.InsertionCost;
    };
    for (auto const& [i, j] : pairs) {
        SX_CHECK(to.at(i) == -1 && fits(i, j), "pairs keep ancestors and order");
        to.at(i) = j;
    }
    double got = cost(), best = 1e9;
    to.assign(a.size(), -1);
    auto search = [&](auto& self, int i) -> void {
        if (i == a.size()) {
            double c = cost();
            if (c < best) { best = c; }
            return;
        }
        self(self, i + 1);
        for (int j = 0; j < b.size(); ++j) {
            if (fits(i, j)) {
                to.at(i) = j;
                self(self, i + 1);
                to.at(i) = -1;
            }
        }
    };
    search(search, 0);
    SX_CHECK(got == best, "no other pairing is cheaper");
    SX_REACH("end");
}

extern "C" void edits() {
    Tree a = anyTree(EDITS + 1, 0, 3), b = anyTree(EDITS, 100, 3);
    symx_assume(a.kind(0) == b.kind(0));
    whole[0]   = &a;
    whole[1]   = &b;
    auto edits = getEdits(
        a, b, [](NodeStore::Id const& x, NodeStore::Id const& y) { return labelOf(x) == labelOf(y); });
    // what becomes of every old node, and where every new one comes from
    std::vector<int>  to(a.size(), -1), from(b.size(), -1), fate(a.size(), 0), origin(b.size(), 0);
    std::vector<bool> updated(a.size(), false);
    auto              place = [](Tree& t, int n) {
        int i = 0;
        while (t.parent.at(n) != -1 && t.sub.at(t.parent.at(n)).at(i) != n) { ++i; }
        return i;
    };
    for (auto const& e : edits) {
        if (e.hasSrc()) { SX_CHECK(fate.at(a.at(e.getSrc()))++ == 0, "an old node is edited once"); }
        if (e.hasDst()) { SX_CHECK(origin.at(b.at(e.getDst()))++ == 0, "a new node is made once"); }
        SX_CHECK(e.hasSrc() || e.isInsert(), "only insertions have no old node");
        SX_CHECK(e.hasDst() || e.isDelete(), "only deletions have no new node");
        int i = e.hasSrc() ? a.at(e.getSrc()) : -1, j = e.hasDst() ? b.at(e.getDst()) : -1;
        if (e.isInsert()) { SX_CHECK(e.getInsert().dstIndex == place(b, j), "insertions name the place"); }
        if (e.isDelete()) { SX_CHECK(e.getDelete().srcIndex == place(a, i), "deletions name the place"); }
        if (e.isMove()) {
            SX_CHECK(e.getMove().srcIndex == place(a, i) && e.getMove().dstIndex == place(b, j), "moves name both places");
            SX_CHECK(a.label.at(i) == b.label.at(j), "a moved node keeps its value");
        }
        if (e.isUpdate()) {
            SX_CHECK(e.getUpdate().srcIndex == place(a, i) && e.getUpdate().dstIndex == place(b, j), "updates name both places");
            SX_CHECK(a.kind(i) == b.kind(j) && a.label.at(i) != b.label.at(j), "an update changes the value only");
        }
        if (i != -1 && j != -1) {
            to.at(i)   = j;
            from.at(j) = i;
        }
    }
    SX_CHECK((from.at(0) == 0) == (a.label.at(0) != b.label.at(0)), "the root is updated when it differs");
    auto apply = [&](auto& self, int i, int j) -> void {
        auto const&       old = a.sub.at(i);
        auto const&       now = b.sub.at(j);
        std::vector<bool> used(old.size(), false);
        for (int k = 0; k < (int)now.size(); ++k) {
            int n = now.at(k), o = from.at(n);
            if (origin.at(n) == 0) {
                SX_CHECK(k < (int)old.size() && fate.at(old.at(k)) == 0, "a new node not made by an edit was there");
                o = old.at(k);
                SX_CHECK(a.label.at(o) == b.label.at(n), "a node without edit is the same");
            } else if (o == -1) {
                continue;
            }
            SX_CHECK(a.parent.at(o) == i, "nodes stay under their parent");
            used.at(place(a, o)) = true;
            self(self, o, n);
        }
        for (int k = 0; k < (int)old.size(); ++k) {
            SX_CHECK(used.at(k) || (fate.at(old.at(k)) == 1 && to.at(old.at(k)) == -1), "old nodes that are gone were deleted");
        }
    };
    apply(apply, 0, 0);
    SX_REACH("end");
}
