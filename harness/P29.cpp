// Ids, footnotes and radio targets lead to the nodes that carry them, and
// walks over a document meet every node once.
#include "org_document.hpp"
#include "org_forms.hpp"
#include <haxorg/api/SemBaseApi.hpp>
using namespace doc;

#ifdef TIER_THOROUGH
static const int MORE = 1;
#else
static const int MORE = 0;
#endif

static void leads(org::AstTrackingPath const& p, SemId<Org> const& root) {
    SX_CHECK(p.path.size() >= 2, "a path has the document and the node");
    SX_CHECK(p.path.at(0) == root, "a path starts at the document");
    for (int i = 1; i < p.path.size(); ++i) {
        int found = 0;
        for (auto const& s : p.path.at(i - 1)->getAllSubnodes()) { found += s == p.path.at(i); }
        SX_CHECK(found == 1, "every step of a path is directly inside the one before");
    }
    SX_CHECK(p.getNode() == p.path.back(), "a path ends at its node");
    SX_CHECK(p.getParent() == p.path.at(p.path.size() - 2), "the parent is the step before");
}

/// All headings with an id are found by it, in the order of the document.
extern "C" void heading_ids() {
    int                      n = sx::pick("n", 1, 2 + MORE);
    std::string              text;
    std::vector<std::string> id(n);
    for (int i = 0; i < n; ++i) {
        text += std::string(sx::pick("stars", 1, 2), '*') + " t\n";
        if (sx::pick("id", 0, 1)) {
            id[i] = sx::word("id", 1, 1, "ab");
            text += ":PROPERTIES:\n:ID: " + id[i] + "\n:END:\n";
        }
    }
    Parsed p{text};
    auto   map = org::getAstTrackingMap({p.document.asOrg()});
    auto   all = std::vector<SemId<Org>>{};
    org::eachSubnodeRec(p.document.asOrg(), [&](SemId<Org> const& o) {
        if (is(o, osk::Subtree)) { all.push_back(o); }
    });
    SX_CHECK((int)all.size() == n, "every heading is walked over once");
    for (std::string key : {"a", "b"}) {
        std::vector<SemId<Org>> want;
        for (int i = 0; i < n; ++i) {
            if (id[i] == key) { want.push_back(all[i]); }
        }
        auto got = map.getIdPath(Str(key));
        SX_CHECK(got.has_value() == !want.empty(), "an id is known when a heading has it");
        if (!got) { continue; }
        SX_CHECK(got->alternatives.size() == (int)want.size(), "every heading with the id is found once");
        for (int i = 0; i < (int)want.size(); ++i) {
            SX_CHECK(got->alternatives.at(i).getNode() == want[i], "headings are found by their id in order");
            leads(got->alternatives.at(i), p.document.asOrg());
        }
        SX_CHECK(got->getNode() == want[0] && got->getAllNodes().size() == (int)want.size(), "the first heading is the one meant");
    }
    SX_REACH("end");
}

/// Footnote texts are found by their name.
extern "C" void footnotes() {
    int                      n = sx::pick("n", 1, 2);
    std::vector<std::string> name(n);
    std::string              text = sx::pick("before", 0, 1) ? "x\n\n" : "";
    for (int i = 0; i < n; ++i) {
        name[i] = sx::word("name", 1, 1, "ab");
        text += "[fn:" + name[i] + "] " + std::string(1, 'p' + i) + "\n\n";
    }
    Parsed p{text};
    auto   map = org::getAstTrackingMap({p.document.asOrg()});
    for (std::string key : {"a", "b"}) {
        int want = 0;
        for (auto const& s : name) { want += s == key; }
        auto got = map.getFootnotePath(Str(key));
        SX_CHECK(got.has_value() == (want != 0), "a footnote is known when it was written");
        SX_CHECK(!map.getIdPath(Str(key)) && !map.getNamePath(Str(key)) && !map.getAnchorTarget(Str(key)), "a footnote is nothing else");
        if (!got) { continue; }
        SX_CHECK(got->alternatives.size() == want, "every text of the footnote is found once");
        int k = 0;
        for (int i = 0; i < n; ++i) {
            if (name[i] != key) { continue; }
            leads(got->alternatives.at(k), p.document.asOrg());
            std::string in = plain(*got->alternatives.at(k++).getNode());
            SX_CHECK(in.find('p' + i) != std::string::npos, "the footnote leads to its text");
        }
    }
    SX_REACH("end");
}

/// Words of a paragraph are grouped so that exactly the places where the words
/// of a radio target follow one another refer to it.
extern "C" void radio_targets() {
    std::vector<std::string> target(sx::pick("words", 1, 2)), use(sx::pick("used", 1, 3 + MORE));
    std::string              text = "<<<", para;
    for (auto& w : target) { w = sx::word("target", 1, 1, "ab"); }
    for (auto& w : use) { w = sx::word("use", 1, 1, "abc"); }
    for (int i = 0; i < (int)target.size(); ++i) { text += (i ? " " : "") + target[i]; }
    for (int i = 0; i < (int)use.size(); ++i) { para += (i ? " " : "") + use[i]; }
    bool   before = sx::pick("before", 0, 1);
    Parsed p{before ? text + ">>>\n\n" + para + "\n" : para + "\n\n" + text + ">>>\n"};
    auto   map = org::getAstTrackingMap({p.document.asOrg()});
    SemId<Org> node = SemId<Org>::Nil(), tnode = SemId<Org>::Nil();
    org::eachSubnodeRec(p.document.asOrg(), [&](SemId<Org> const& o) {
        if (is(o, osk::RadioTarget)) { tnode = o; }
        if (is(o, osk::Paragraph) && plain(*o).rfind(use[0], 0) == 0 && o->subnodes.size() > 0
            && !is(o->subnodes.at(0), osk::RadioTarget)) {
            node = o;
        }
    });
    SX_CHECK(!node.isNil() && !tnode.isNil(), "text and target are in the document");
    auto groups = org::getSubnodeGroups(node, map);
    int  at     = 0;
    auto next   = [&](SemId<Org> const& it) {
        SX_CHECK(at < node->subnodes.size() && node->subnodes.at(at) == it, "groups have the nodes of the paragraph in order");
        ++at;
    };
    // words of the paragraph by the place in its nodes
    int word = 0;
    for (auto const& g : groups) {
        if (g.isRadioTarget()) {
            auto const& r = g.getRadioTarget();
            SX_CHECK(r.target.getNode() == tnode, "a group refers to the target");
            for (int i = 0; i < (int)target.size(); ++i) {
                SX_CHECK(word + i < (int)use.size() && use[word + i] == target[i], "only words of the target refer to it");
            }
            word += target.size();
            for (auto const& it : r.nodes) { next(it); }
        } else {
            SX_CHECK(g.isSingle(), "other nodes are on their own");
            if (is(g.getSingle().node, osk::Word)) {
                bool all = word + target.size() <= use.size();
                for (int i = 0; all && i < (int)target.size(); ++i) { all = use[word + i] == target[i]; }
                SX_CHECK(!all, "every place with the words of the target refers to it");
                ++word;
            }
            next(g.getSingle().node);
        }
    }
    SX_CHECK(at == node->subnodes.size() && word == (int)use.size(), "every node is in a group");
    SX_REACH("end");
}

/// Both walks meet the same nodes, each of them once, parents first.
static void walks(std::string const& text) {
    Parsed                  p{text};
    std::vector<SemId<Org>> plain_walk, path_walk;
    org::eachSubnodeRec(p.document.asOrg(), [&](SemId<Org> const& o) {
        for (auto const& x : plain_walk) { SX_CHECK(!(x == o), "a walk meets a node once"); }
        plain_walk.push_back(o);
    });
    org::eachSubnodeRecSimplePath(p.document.asOrg(), [&](SemId<Org> const& o, Vec<SemId<Org>> const& path) {
        for (auto const& x : path_walk) { SX_CHECK(!(x == o), "a walk with paths meets a node once"); }
        path_walk.push_back(o);
        SX_CHECK(path.empty() == (o == p.document.asOrg()), "only the document has no path");
        if (path.size() != 0) {
            int found = 0;
            for (auto const& s : path.back()->getAllSubnodes()) { found += s == o; }
            SX_CHECK(found == 1, "the last step of the path has the node");
        }
    });
    for (auto const& a : path_walk) {
        int found = 0;
        for (auto const& b : plain_walk) { found += a == b; }
        SX_CHECK(found == 1, "both walks meet the same nodes");
    }
    SX_CHECK(path_walk.size() == plain_walk.size(), "both walks meet equally many nodes");
    SX_REACH("end");
}
extern "C" void walk_inline() { walks(one_of("piece", INLINE) + "\n"); }
extern "C" void walk_statements() { walks(one_of("piece", STMT)); }
extern "C" void walk_headings() { walks(one_of("piece", HEADING)); }

/// Changing one item of a list leaves the others as they are.
extern "C" void list_items() {
    int                      n = sx::pick("n", 1, 3), how = sx::pick("how", 0, 2);
    std::string              text;
    std::vector<std::string> head(n);
    for (int i = 0; i < n; ++i) {
        if (sx::pick("described", 0, 1)) { head[i] = sx::word("head", 1, 1, "ab"); }
        text += "- " + (head[i].empty() ? "" : head[i] + " :: ") + std::string(1, 'p' + i) + "\n";
    }
    Parsed p{text}, q{"x\n"};
    auto   list = p.document.asOrg()->subnodes.at(0).as<List>();
    SX_CHECK(list->subnodes.size() == n, "every item is in the list");
    for (std::string key : {"a", "b"}) {
        int want = -1;
        for (int i = n - 1; 0 <= i; --i) {
            if (head[i] == key) { want = i; }
        }
        fmt::verif_enabled = true;
        int got            = org::getListHeaderIndex(list, Str(key));
        fmt::verif_enabled = false;
        SX_CHECK(got == want, "the first item described so is found");
    }
    Vec<SemId<Org>> old = list->subnodes, body{q.document->subnodes.at(0)};
    int             at  = sx::pick("at", 0, how == 0 ? n - 1 : n);
    if (how == 0) {
        org::setListItemBody(list, at, body);
    } else if (how == 1) {
        org::insertListItemBody(list, at, body);
    } else {
        org::insertDescriptionListItem(list, at, q.document->subnodes.at(0).as<Paragraph>(), body);
    }
    SX_CHECK(list->subnodes.size() == n + (how != 0), "a list grows by what is inserted");
    for (int i = 0, k = 0; i < list->subnodes.size(); ++i) {
        auto item = list->subnodes.at(i).as<ListItem>();
        if (i == at) {
            SX_CHECK(item->subnodes.size() == 1 && item->subnodes.at(0) == body.at(0), "the item has the new text");
            if (how == 0) {
                SX_CHECK(list->subnodes.at(i) == old.at(k++), "a changed item stays in place");
                SX_CHECK(item->isDescriptionItem() == !head[i].empty(), "a changed item keeps its description");
            } else {
                SX_CHECK(item->isDescriptionItem() == (how == 2), "a new item is described when asked for");
            }
        } else {
            SX_CHECK(list->subnodes.at(i) == old.at(k), "other items stay in order");
            SX_CHECK(plain(*item.asOrg()).find('p' + k) != std::string::npos, "other items keep their text");
            ++k;
        }
    }
    SX_REACH("end");
}

/// Targets and footnotes inside other parts are found too.
extern "C" void inside_others() {
    static const char* const PLACE[] = {"* t\n%\n", "* t\n** t\n%\n", "- %\n", "- y :: %\n", "- % :: y\n", "#+begin_quote\n%\n#+end_quote\n",
                                        "| % |\n", "- y\n  - %\n", "* %\n"};
    std::string text = PLACE[sx::pick("place", 0, 8)], name = sx::word("name", 1, 1, "ab");
    text.replace(text.find('%'), 1, "<<<" + name + ">>>");
    Parsed p{text};
    auto   map = org::getAstTrackingMap({p.document.asOrg()});
    for (std::string key : {"a", "b"}) {
        auto it = map.radioTargets.find(Str(key));
        SX_CHECK((it != map.radioTargets.end()) == (key == name), "a target is known when it was written");
        if (key != name) { continue; }
        SX_CHECK(it->second.alternatives.size() == 1, "a target is found once");
        SX_CHECK(is(it->second.getNode(), osk::RadioTarget), "a target leads to itself");
        leads(it->second.alternatives.at(0), p.document.asOrg());
    }
    SX_REACH("end");
}
