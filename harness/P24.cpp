// The immutable form of a document holds the same document, and edits of it change what they say.
#include "org_equal.hpp"
#include "org_forms.hpp"
#include <haxorg/imm/ImmOrg.hpp>
#include <haxorg/imm/ImmOrgEdit.hpp>
#include <hstd/ext/logger.hpp>
using namespace doc;
using namespace org::imm;

// Nothing is logged.
namespace hstd::log {
bool is_log_accepted(severity_level) { return false; }
} // namespace hstd::log

/// Every node is where its path says and knows the nodes around it.
static void consistent(ImmAstVersion const& v) {
    auto&      ctx  = *v.context;
    ImmAdapter root = v.getRootAdapter();
    SX_CHECK(root.id == v.getRoot() && root.isRoot() && !root.getParent().has_value(), "the root is the root");
    for (ImmAdapter const& n : root.getAllSubnodesDFS(root.path)) {
        SX_CHECK(ctx.at(n.path) == n.id, "a path leads to its node");
        auto parent = n.getParent();
        SX_CHECK(parent.has_value() && parent->isDirectParentOf(n), "a node below the root has a parent");
        if (!parent.has_value()) { continue; }
        SX_CHECK(root.isIndirectParentOf(n), "the root is above all nodes");
        if (isTrackingParentDefault(n)) {
            SX_CHECK(ctx.currentTrack->isParentOf(parent->id, n.id), "the parents of a node are recorded");
        }
        for (int i = 0; i < n.size(); ++i) {
            ImmAdapter s = n.at(i);
            SX_CHECK(s.id == n->subnodes.at(i) && s.getSelfIndex() == i, "a subnode knows its position");
            SX_CHECK(s.getAdjacentNode(-1).has_value() == (i != 0), "before the first there is nothing");
            SX_CHECK(s.getAdjacentNode(1).has_value() == (i + 1 != n.size()), "after the last there is nothing");
            if (i != 0) { SX_CHECK(s.getAdjacentNode(-1)->id == n->subnodes.at(i - 1), "the node before"); }
        }
    }
}

static SemId<Document> back(ImmAstVersion const& v) { return v.context->get(v.getRoot()).as<Document>(); }

static void keep(std::string const& text) {
    Parsed p{text};
    auto   start = ImmAstContext::init_start_context();
    auto   v     = start->addRoot(p.document.asOrg());
    SX_CHECK(equal(p.document, back(v)), "the immutable document is the document");
    consistent(v);
    Parsed again{text};
    auto   v2 = v.context->addRoot(again.document.asOrg());
    SX_CHECK(v2.getRoot() == v.getRoot(), "equal documents are stored once");
    SX_REACH("end");
}
extern "C" void keep_inline() { keep(one_of("p", INLINE) + "\n"); }
extern "C" void keep_statement() { keep(one_of("p", STMT)); }
extern "C" void keep_heading() { keep(one_of("p", HEADING)); }
extern "C" void keep_whole() { keep(one_of("p", WHOLE)); }

/// Documents with several nodes next to each other.
static const char* const EDITED[] = {
    "?\n\n?\n\n?\n", "- ?\n- ?\n- ?\n", "* ?\n* ?\n* ?\n", "* ?\n** ?\n** ?\n** ?\n", "? ?\n", "#+begin_quote\n?\n\n?\n#+end_quote\n", "* ?\n?\n\n- ?\n- ?\n",
};
/// The node of the document that is edited: one with several subnodes, as deep as there is one.
static Vec<int> deepest(SemId<Org> n) {
    Vec<int> best;
    int      depth = n->subnodes.size() > 1 ? 0 : -1;
    for (size_t i = 0; i < n->subnodes.size(); ++i) {
        if (is(n->subnodes.at(i), osk::Word)) { continue; }
        Vec<int> below = deepest(n->subnodes.at(i));
        SemId<Org> at  = n->subnodes.at(i);
        for (int k : below) { at = at->subnodes.at(k); }
        if (at->subnodes.size() > 1 && (int)below.size() + 1 > depth) {
            depth = (int)below.size() + 1;
            best.clear();
            best.push_back((int)i);
            best.append(below);
        }
    }
    return best;
}

static void edited(bool deep) {
    std::string text = one_of("p", EDITED);
    Parsed      p{text}, other{text}, more{"z z\n"};
    auto        start = ImmAstContext::init_start_context();
    auto        v     = start->addRoot(p.document.asOrg());
    // The same edit of the other copy of the document is the expected result.
    SemId<Org>  target = other.document.asOrg();
    ImmAdapter  node   = v.getRootAdapter();
    Vec<int>    path   = deep ? deepest(target) : Vec<int>{};
    for (int i : path) {
        target = target->subnodes.at(i);
        node   = node.at(i);
    }
    symx_assume(deep == !path.empty());
    auto&      sub = target->subnodes;
    SemId<Org> add = more.document->subnodes.at(0);
    int        n   = (int)sub.size();
    if (n == 0) { return; }
    int  at = sx::pick("at", 0, n - 1), to = sx::pick("to", 0, n - 1), op = sx::pick("op", 0, 8);
    if (op == 5 || op == 6) {
        // An edit that would leave the node as it is is not accepted.
        bool same = true;
        for (int i = std::min(at, to); i < std::max(at, to); ++i) {
            if (op == 5 || i == std::min(at, to)) { same = same && node->subnodes.at(i) == node->subnodes.at(op == 5 ? i + 1 : std::max(at, to)); }
        }
        symx_assume(!same);
    } else {
        symx_assume(to == 0);
    }
    auto v2 = v.getEditVersion([&](ImmAstContext::Ptr, ImmAstEditContext& ctx) -> ImmAstReplaceGroup {
        ImmAstReplaceGroup g;
        switch (op) {
            case 0: {
                g.incl(setSubnode(node, ctx->add(add, ctx), at, ctx));
                sub.at(at) = add;
                break;
            }
            case 1: {
                g.incl(insertSubnode(node, ctx->add(add, ctx), at, ctx));
                sub.insert(sub.begin() + at, add);
                break;
            }
            case 2: {
                ImmId id = ctx->add(add, ctx);
                g.incl(insertSubnodes(node, {id, id}, at, ctx));
                sub.insert(sub.begin() + at, add);
                sub.insert(sub.begin() + at, add);
                break;
            }
            case 3: {
                g.incl(appendSubnode(node, ctx->add(add, ctx), ctx));
                sub.push_back(add);
                break;
            }
            case 4: {
                g.incl(dropSubnode(node, at, ctx));
                sub.erase(sub.begin() + at);
                break;
            }
            case 5: {
                auto r = moveSubnode(node, at, to - at, ctx);
                if (r) { g.incl(*r); }
                SemId<Org> moved = sub.at(at);
                sub.erase(sub.begin() + at);
                sub.insert(sub.begin() + to, moved);
                break;
            }
            case 6: {
                g.incl(swapSubnode(node, at, to, ctx));
                std::swap(sub.at(at), sub.at(to));
                break;
            }
            case 7: {
                auto r = popSubnode(node, at, ctx);
                g.incl(r.first);
                SX_CHECK(r.second == node->subnodes.at(at), "the removed node is given back");
                sub.erase(sub.begin() + at);
                break;
            }
            default: {
                g.incl(replaceNode(node.at(at), ctx->add(add, ctx), ctx));
                sub.at(at) = add;
            }
        }
        return g;
    });
    SX_CHECK(equal(other.document, back(v2)), "the new version has the edit and nothing else");
    SX_CHECK(equal(p.document, back(v)), "the old version is unchanged");
    consistent(v2);
    SX_REACH("end");
}
extern "C" void edit_top() { edited(false); }
extern "C" void edit_deep() { edited(true); }

// What is named in the text is found by its name.
extern "C" void lookup() {
    std::string id = sx::word("id", 1, 1, "axq"), custom = sx::word("custom", 1, 1, "axq"), foot = sx::word("foot", 1, 1, "axq"), name = sx::word("name", 1, 1, "axq");
    Parsed      p{"#+name: " + name + "\n| z |\n\n[fn:" + foot + "] y\n\n* h\n:properties:\n:id: " + id + "\n:custom_id: " + custom + "\n:end:\n"};
    auto        v     = ImmAstContext::init_start_context()->addRoot(p.document.asOrg());
    auto const& track = *v.context->currentTrack;
    auto        at    = [&](ImmStrIdMap const& map, std::string const& key, osk kind, const char* what) {
        symx_check(map.size() == 1, what);
        auto found = map.find(Str(key));
        symx_check(found != nullptr && found->getKind() == kind, what);
    };
    at(track.names, name, osk::Table, "the table is found by its name");
    at(track.footnotes, foot, osk::Paragraph, "the footnote is found by its name");
    at(track.subtrees, id, osk::Subtree, "the heading is found by its identifier");
    at(track.customIds, custom, osk::Subtree, "the heading is found by its custom identifier");
    SX_REACH("end");
}
