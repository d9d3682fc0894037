// A document has the structure and the values its text says.
#include "org_document.hpp"
using namespace doc;

#ifdef TIER_THOROUGH
static const int MORE = 1;
#else
static const int MORE = 0;
#endif

/// Headings nest by their number of stars: each one is inside the closest
/// earlier heading with fewer stars. Text belongs to the heading above it.
extern "C" void outline() {
    int                      n = sx::pick("n", 1, 3 + MORE);
    std::string              text;
    std::vector<int>         level(n), parent(n, -1), body(n);
    std::vector<std::string> title(n);
    for (int i = 0; i < n; ++i) {
        level[i] = sx::pick("stars", 1, 3);
        body[i]  = sx::pick("body", 0, 1);
        title[i] = sx::word("title", 1, 1, "axq");
        for (int k = i - 1; k >= 0; --k) {
            if (level[k] < level[i]) {
                parent[i] = k;
                break;
            }
        }
        text += std::string(level[i], '*') + " " + title[i] + "\n";
        if (body[i]) { text += "b" + title[i] + "\n"; }
    }
    Parsed p{text};
    int    seen = 0;
    std::function<void(Org const&, int)> walk = [&](Org const& at, int up) {
        int paragraphs = 0;
        for (auto const& s : at.subnodes) {
            if (is(s, osk::Paragraph)) {
                SX_CHECK(up >= 0, "there is no text before the first heading");
                same(plain(*s), "b" + title[up], "text belongs to the heading above it");
                ++paragraphs;
            }
            if (!is(s, osk::Subtree)) { continue; }
            Subtree const& t = as<Subtree>(s);
            SX_CHECK(seen < n, "no more headings than written");
            SX_CHECK(t.level == level[seen], "a heading has the level of its stars");
            SX_CHECK(parent[seen] == up, "a heading is inside the closest one above it");
            same(plain(*t.title), title[seen], "a heading has its title");
            int self = seen++;
            walk(t, self);
        }
        SX_CHECK(paragraphs == (up >= 0 ? body[up] : 0), "all text is under its heading");
    };
    walk(*p.document, -1);
    SX_CHECK(seen == n, "every heading is in the document");
    SX_REACH("end");
}

/// A heading has the keyword, priority, title, progress and tags it is
/// written with.
extern "C" void heading_parts() {
    int         stars = sx::pick("stars", 1, 2);
    bool        todo = sx::pick("todo", 0, 1), prio = sx::pick("prio", 0, 1), done = sx::pick("done", 0, 1);
    int         tags = sx::pick("tags", 0, 2);
    std::string key = sx::word("key", 2, 2 + MORE, "TODX"), pr = sx::word("prio", 1, 1, "ABC"), a = sx::word("a", 1, 2, "ab"),
                t1 = sx::word("t1", 1, 2, "tu"), t2 = "v", k = sx::word("k", 1, 1, "012");
    std::string text = std::string(stars, '*');
    if (todo) { text += " " + key; }
    if (prio) { text += " [#" + pr + "]"; }
    text += " " + a + " b";
    if (done) { text += " [" + k + "/3]"; }
    if (tags) { text += " :" + t1 + (tags > 1 ? ":" + t2 : "") + ":"; }
    Parsed p{text + "\n"};
    SX_CHECK(p.document->subnodes.size() == 1 && is(p.document->subnodes.at(0), osk::Subtree), "one heading");
    Subtree const& t = as<Subtree>(p.document->subnodes.at(0));
    SX_CHECK(t.level == stars, "level");
    auto keyword = t.getTodoKeyword();
    SX_CHECK(keyword.has_value() == todo, "keyword given or not");
    if (todo) { same(*keyword, key, "keyword"); }
    SX_CHECK(t.priority.has_value() == prio, "priority given or not");
    if (prio) { same(*t.priority, pr, "priority"); }
    SX_CHECK(t.completion.has_value() == done, "progress given or not");
    if (done) {
        SX_CHECK(t.completion->done == k[0] - '0' && t.completion->full == 3 && !t.completion->isPercent, "progress");
    }
    // Without a priority the keyword is the first word of the title.
    same(plain(*t.title), (todo && !prio ? key + " " : "") + a + " b", "title");
    SX_CHECK((int)t.tags.size() == tags, "number of tags");
    if (tags) { same(t.tags.at(0)->text.head, t1, "first tag"); }
    if (tags > 1) { same(t.tags.at(1)->text.head, t2, "second tag"); }
    SX_CHECK(!t.isComment && !t.isArchived, "an ordinary heading");
    SX_REACH("end");
}

/// List items nest by their indentation.
extern "C" void lists() {
    int                      n = sx::pick("n", 1, 3 + MORE);
    std::string              text;
    std::vector<int>         depth(n), parent(n, -1);
    std::vector<std::string> word(n);
    for (int i = 0; i < n; ++i) {
        depth[i] = i == 0 ? 0 : sx::pick("depth", 0, depth[i - 1] + 1);
        word[i]  = sx::word("item", 1, 1, "axq");
        for (int k = i - 1; k >= 0; --k) {
            if (depth[k] < depth[i]) {
                parent[i] = k;
                break;
            }
        }
        text += std::string(2 * depth[i], ' ') + "- " + word[i] + "\n";
    }
    Parsed p{text};
    int    seen = 0;
    std::function<void(Org const&, int)> walk = [&](Org const& at, int up) {
        int lists = 0;
        for (auto const& s : at.subnodes) {
            if (!is(s, osk::List)) { continue; }
            SX_CHECK(++lists == 1, "the items of one level are one list");
            for (auto const& i : s.value->subnodes) {
                SX_CHECK(is(i, osk::ListItem), "a list holds items");
                SX_CHECK(seen < n, "no more items than written");
                SX_CHECK(parent[seen] == up, "an item is inside the closest less indented one");
                int self = seen++;
                SX_CHECK(i.value->subnodes.size() >= 1 && is(i.value->subnodes.at(0), osk::Paragraph), "an item starts with its text");
                same(plain(*i.value->subnodes.at(0).value), word[self], "an item has its text");
                walk(*i.value, self);
            }
        }
    };
    walk(*p.document, -1);
    SX_CHECK(seen == n, "every item is in the document");
    SX_REACH("end");
}

/// An item has the number, check box and header it is written with.
extern "C" void list_parts() {
    int         b = sx::pick("bullet", 0, 3), c = sx::pick("box", 0, 3), h = sx::pick("header", 0, 1);
    std::string num = sx::word("num", 1, 1, "129"), x = sx::word("x", 1, 2, "axq"), y = sx::word("y", 1, 1, "br");
    static const char* const BOX[] = {"", "[ ] ", "[X] ", "[-] "};
    std::string bullet = b == 0 ? "-" : b == 1 ? "+" : num + (b == 2 ? "." : ")");
    Parsed p{bullet + " " + BOX[c] + (h ? y + " :: " : "") + x + "\n"};
    SX_CHECK(p.document->subnodes.size() == 1 && is(p.document->subnodes.at(0), osk::List), "one list");
    Org const& l = *p.document->subnodes.at(0).value;
    SX_CHECK(l.subnodes.size() == 1 && is(l.subnodes.at(0), osk::ListItem), "one item");
    ListItem const& i = as<ListItem>(l.subnodes.at(0));
    SX_CHECK(as<List>(p.document->subnodes.at(0)).isNumberedList() == (b > 1), "only lists with numbers are numbered");
    SX_CHECK(i.bullet.has_value(), "an item has a bullet");
    same(*i.bullet, bullet, "bullet");
    static const CheckboxState STATE[] = {CheckboxState::None, CheckboxState::Empty, CheckboxState::Done, CheckboxState::Partial};
    SX_CHECK(i.checkbox == STATE[c], "check box");
    SX_CHECK(i.header.has_value() == (bool)h, "header given or not");
    if (h) { same(plain(**i.header), y, "header"); }
    SX_CHECK(i.subnodes.size() == 1, "one paragraph");
    same(plain(*i.subnodes.at(0).value), x, "text");
    SX_REACH("end");
}

/// Blank lines separate paragraphs, single line breaks do not.
extern "C" void paragraphs() {
    int                      n = sx::pick("n", 1, 4 + MORE);
    std::string              text;
    std::vector<std::string> want;
    for (int i = 0; i < n; ++i) {
        std::string w = sx::word("w", 1, 1, "axq7");
        int         s = i == 0 ? 2 : sx::pick("sep", 0, 3);
        static const char* const SEP[] = {" ", "\n", "\n\n", "\n\n\n"};
        if (i) { text += SEP[s]; }
        if (s >= 2) {
            want.push_back(w);
        } else {
            want.back() += SEP[s] + w;
        }
        text += w;
    }
    Parsed p{text};
    size_t at = 0;
    for (auto const& s : p.document->subnodes) {
        if (is(s, osk::Newline)) { continue; }
        SX_CHECK(is(s, osk::Paragraph), "text is paragraphs");
        SX_CHECK(at < want.size(), "no more paragraphs than written");
        same(plain(*s.value), want[at++], "a paragraph has its text");
    }
    SX_CHECK(at == want.size(), "every paragraph is in the document");
    SX_REACH("end");
}

/// A table has its rows and cells.
extern "C" void tables() {
    int rows = sx::pick("rows", 1, 2 + MORE), cols = sx::pick("cols", 1, 3), rule = sx::pick("rule", 0, 2);
    std::vector<std::string> cell;
    std::string              text;
    for (int r = 0; r < rows; ++r) {
        for (int c = 0; c < cols; ++c) {
            cell.push_back(sx::word("cell", 1, 1, "axq"));
            text += "| " + cell.back() + " ";
        }
        text += "|\n";
        if (r == 0 && rule == 1) { text += "|---" + std::string(cols > 1 ? "+---" : "") + "|\n"; }
    }
    if (rule == 2) { text += "\nafter\n"; }
    Parsed p{text};
    SX_CHECK(p.document->subnodes.size() >= 1 && is(p.document->subnodes.at(0), osk::Table), "a table");
    Table const& t = as<Table>(p.document->subnodes.at(0));
    SX_CHECK((int)t.rows.size() == rows, "number of rows");
    for (int r = 0; r < rows; ++r) {
        SX_CHECK((int)t.rows.at(r)->cells.size() == cols, "number of cells");
        for (int c = 0; c < cols; ++c) { same(plain(*t.rows.at(r)->cells.at(c)), cell[r * cols + c], "cell text"); }
    }
    SX_REACH("end");
}

/// Marks apply to the words between them, also inside one another.
extern "C" void marks() {
    struct M { char c; osk kind; bool raw; };
    static const M ALL[] = {{'*', osk::Bold, false}, {'/', osk::Italic, false}, {'_', osk::Underline, false},
                            {'+', osk::Strike, false}, {'=', osk::Verbatim, true}, {'~', osk::Monospace, true}};
    M const& o = ALL[sx::pick("outer", 0, 5)];
    int      in = o.raw ? -1 : sx::pick("inner", -1, 5);
    std::string a = sx::word("a", 1, 2, "axq"), b = sx::word("b", 1, 1, "axq"), c = sx::word("c", 1, 1, "axq"), e = sx::word("e", 1, 1, "axq");
    if (in >= 0 && ALL[in].c == o.c) { return; }
    std::string mid = in < 0 ? b : b + " " + ALL[in].c + c + ALL[in].c + " " + b;
    Parsed p{a + " " + o.c + mid + o.c + " " + e};
    SX_CHECK(p.document->subnodes.size() == 1 && is(p.document->subnodes.at(0), osk::Paragraph), "one paragraph");
    Org const& g = *p.document->subnodes.at(0).value;
    SX_CHECK(g.subnodes.size() == 5, "words around the marked part");
    same(plain(*g.subnodes.at(0).value), a, "word before");
    same(plain(*g.subnodes.at(4).value), e, "word after");
    SX_CHECK(is(g.subnodes.at(2), o.kind), "the marked part is marked");
    Org const& m = *g.subnodes.at(2).value;
    same(plain(m), in < 0 ? b : b + " " + c + " " + b, "the marked part has its text");
    if (in >= 0) {
        SX_CHECK(m.subnodes.size() == 5 && is(m.subnodes.at(2), ALL[in].kind), "marks nest");
        same(plain(*m.subnodes.at(2).value), c, "the inner part has its text");
    }
    SX_REACH("end");
}

/// A link has its target and description.
extern "C" void links() {
    int         k = sx::pick("kind", 0, 9), d = sx::pick("desc", 0, 1);
    std::string x = sx::word("x", 1, 3, "axq7"), y = sx::word("y", 1, 2, "br");
    static const char* const LEAD[] = {"https:", "id:", "file:", "attachment:", "#", "./", "/", "*", "**", "usr:"};
    Parsed p{std::string("[[") + LEAD[k] + x + (d ? "][" + y : "") + "]]"};
    SX_CHECK(p.document->subnodes.size() == 1 && is(p.document->subnodes.at(0), osk::Paragraph), "one paragraph");
    Org const& g = *p.document->subnodes.at(0).value;
    SX_CHECK(g.subnodes.size() == 1 && is(g.subnodes.at(0), osk::Link), "one link");
    Link const& l = as<Link>(g.subnodes.at(0));
    SX_CHECK(l.description.has_value() == (bool)d, "description given or not");
    if (d) { same(plain(**l.description), y, "description"); }
    LinkTarget const& t = l.target;
    switch (k) {
        case 0: SX_CHECK(t.isRaw(), "kind"); same(t.getRaw().text, "https:" + x, "target"); break;
        case 1: SX_CHECK(t.isId(), "kind"); same(t.getId().text, x, "target"); break;
        case 2: SX_CHECK(t.isFile(), "kind"); same(t.getFile().file, x, "target"); break;
        case 3: SX_CHECK(t.isAttachment(), "kind"); same(t.getAttachment().file, x, "target"); break;
        case 4: SX_CHECK(t.isCustomId(), "kind"); same(t.getCustomId().text, x, "target"); break;
        case 5: SX_CHECK(t.isFile(), "kind"); same(t.getFile().file, "./" + x, "target"); break;
        case 6: SX_CHECK(t.isFile(), "kind"); same(t.getFile().file, "/" + x, "target"); break;
        case 7:
        case 8:
            SX_CHECK(t.isSubtreeTitle() && t.getSubtreeTitle().level == k - 6, "kind");
            SX_CHECK(t.getSubtreeTitle().title.path.size() == 1, "one title");
            same(t.getSubtreeTitle().title.path.at(0), x, "target");
            break;
        case 9:
            SX_CHECK(t.isUserProtocol(), "kind");
            same(t.getUserProtocol().protocol, "usr", "protocol");
            same(t.getUserProtocol().target, x, "target");
            break;
    }
    SX_REACH("end");
}

/// A code block has its language and its lines, character by character.
extern "C" void code() {
    std::string lang = sx::word("lang", 1, 2, "cq"), a = sx::word("a", 1, 3, "ab ={}*"), b = sx::word("b", 0, 2, "x:#;");
    int         in = sx::pick("indent", 0, 2), tail = sx::pick("tail", 0, 1);
    symx_assume(a[0] != ' ');
    symx_assume(b.empty() || b[0] != '#');
    std::string text = "#+begin_src " + lang + "\n" + a + "\n" + std::string(b.empty() ? 0 : in, ' ') + b + "\n#+end_src\n" + (tail ? "z\n" : "");
    Parsed p{text};
    SX_CHECK(p.document->subnodes.size() >= 1 && is(p.document->subnodes.at(0), osk::BlockCode), "a code block");
    BlockCode const& c = as<BlockCode>(p.document->subnodes.at(0));
    SX_CHECK(c.lang.has_value(), "it has a language");
    same(*c.lang, lang, "language");
    SX_CHECK(c.lines.size() == 2, "number of lines");
    std::string got[2];
    for (int i = 0; i < 2; ++i) {
        for (auto const& part : c.lines.at(i).parts) {
            SX_CHECK(part.isRaw(), "only text");
            got[i] += part.getRaw().code;
        }
    }
    same(got[0], a, "first line");
    same(got[1], std::string(b.empty() ? 0 : in, ' ') + b, "second line");
    SX_REACH("end");
}

/// Commands before a block are attached to it; document commands apply to the
/// document.
extern "C" void commands() {
    std::string a = sx::word("a", 1, 2, "axq"), b = sx::word("b", 1, 2, "br"), c = sx::word("c", 1, 2, "kz");
    Parsed      p{"#+title: " + a + "\n#+name: " + c + "\n#+caption: " + a + "\n#+attr_html: :" + b + " " + c + "\n| x |\n"};
    SX_CHECK(p.document->title.has_value(), "title given");
    same(plain(**p.document->title), a, "title");
    SX_CHECK(p.document->subnodes.size() == 1 && is(p.document->subnodes.at(0), osk::Table), "one table");
    Table const& t = as<Table>(p.document->subnodes.at(0));
    auto         names = t.getName();
    SX_CHECK(names.size() == 1, "one name");
    same(names.at(0), c, "name");
    auto caption = t.getCaption();
    SX_CHECK(caption.size() == 1, "one caption");
    same(plain(*caption.at(0).value), a, "caption");
    auto attr = t.getFirstAttrString(b);
    SX_CHECK(attr.has_value(), "the attribute is found");
    same(*attr, c, "attribute");
    SX_REACH("end");
}

/// A heading has the properties of its drawer.
extern "C" void properties() {
    std::string a = sx::word("a", 1, 2, "axq"), b = sx::word("b", 1, 2, "br"), c = sx::word("c", 1, 2, "kz");
    Parsed      p{"* h\n:properties:\n:id: " + a + "\n:q" + b + ": " + c + "\n:end:\ntext\n"};
    SX_CHECK(p.document->subnodes.size() >= 1 && is(p.document->subnodes.at(0), osk::Subtree), "a heading");
    Subtree const& t = as<Subtree>(p.document->subnodes.at(0));
    SX_CHECK(t.treeId.has_value(), "identifier given");
    same(*t.treeId, a, "identifier");
    auto q = t.getProperty("q" + b);
    SX_CHECK(q.has_value(), "property given");
    SX_CHECK(q->isCustomRaw(), "an unknown property is kept as text");
    same(q->getCustomRaw().value, c, "property value");
    SX_CHECK(!t.getProperty("q" + b + "y").has_value(), "other properties are not given");
    int text = 0;
    for (auto const& s : t.subnodes) {
        if (is(s, osk::Paragraph)) {
            same(plain(*s.value), "text", "text after the drawer");
            ++text;
        }
    }
    SX_CHECK(text == 1, "text after the drawer");
    SX_REACH("end");
}

/// Blocks hold their content.
extern "C" void blocks() {
    int         k = sx::pick("kind", 0, 4);
    std::string a = sx::word("a", 1, 2, "axq"), b = sx::word("b", 1, 1, "br");
    static const char* const NAME[] = {"quote", "center", "comment", "example", "export html"};
    static const osk         KIND[] = {osk::BlockQuote, osk::BlockCenter, osk::BlockComment, osk::BlockExample, osk::BlockExport};
    Parsed p{std::string("#+begin_") + NAME[k] + "\n" + a + "\n" + b + "\n#+end_" + (k == 4 ? "export" : NAME[k]) + "\nz\n"};
    SX_CHECK(p.document->subnodes.size() >= 2 && is(p.document->subnodes.at(0), KIND[k]), "a block");
    if (k == 4) {
        BlockExport const& x = as<BlockExport>(p.document->subnodes.at(0));
        same(x.exporter, "html", "exporter");
        same(x.content, a + "\n" + b, "content");
    } else {
        same(plain(*p.document->subnodes.at(0).value), a + "\n" + b, "content");
    }
    int rest = 0;
    for (size_t i = 1; i < p.document->subnodes.size(); ++i) {
        if (is(p.document->subnodes.at(i), osk::Paragraph)) {
            same(plain(*p.document->subnodes.at(i).value), "z", "text after the block");
            ++rest;
        }
    }
    SX_CHECK(rest == 1, "text after the block");
    SX_REACH("end");
}

/// Tags nest as they are written.
extern "C" void tags() {
    std::string a = sx::word("a", 1, 2, "axq"), b = sx::word("b", 1, 2, "br"), c = sx::word("c", 1, 2, "kz");
    int         k = sx::pick("form", 0, 3);
    Parsed      p{"z #" + a + (k == 0 ? "" : k == 1 ? "##" + b : k == 2 ? "##" + b + "##" + c : "##[" + b + "," + c + "]")};
    Org const&  g = *p.document->subnodes.at(0).value;
    SX_CHECK(g.subnodes.size() == 3 && is(g.subnodes.at(2), osk::HashTag), "a tag");
    HashTagText const& t = as<HashTag>(g.subnodes.at(2)).text;
    same(t.head, a, "first part");
    SX_CHECK((int)t.subtags.size() == (k == 0 ? 0 : k == 3 ? 2 : 1), "number of nested tags");
    if (k) { same(t.subtags.at(0).head, b, "second part"); }
    if (k == 2) {
        SX_CHECK(t.subtags.at(0).subtags.size() == 1, "third level");
        same(t.subtags.at(0).subtags.at(0).head, c, "third part");
    }
    if (k == 3) { same(t.subtags.at(1).head, c, "third part"); }
    SX_REACH("end");
}
