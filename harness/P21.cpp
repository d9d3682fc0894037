// Any text gives a well-formed syntax tree that holds its tokens in order.
#include "symx.hpp"
#include "org_snippets.hpp"
#include <haxorg/base_lexer/base_token_tokenize.hpp>
#include <haxorg/parse/OrgParser.hpp>
#include <haxorg/parse/OrgTokenizer.hpp>

using namespace org::parse;
using namespace hstd;
using otk = OrgTokenKind;
using onk = OrgNodeKind;

/// The markers in front of a few kinds of tokens are not part of their text.
static int dropped(otk kind) {
    switch (kind) {
        case otk::At:
        case otk::Escaped:
        case otk::Placeholder: return 1;
        case otk::ColonExampleLine: return 2;
        case otk::TextSrcBegin:
        case otk::FootnoteLinked: return 4;
        default: return 0;
    }
}

/// The tokens handed to the parser are those of the text, in order, with
/// markers added in between.
static void check_tokens(std::string const& text, OrgTokenGroup const& tokens) {
    int depth = 0, at = 0;
    for (int i = 0; i < tokens.size(); ++i) {
        OrgToken const& t = tokens.tokens.atIndex(i);
        if (t.kind == otk::Indent) { ++depth; }
        if (t.kind == otk::Dedent) { --depth; }
        SX_CHECK(0 <= depth, "no level ends before it begins");
        if (t.value.loc && !t.value.text.empty()) {
            int pos = t.value.loc->pos + dropped(t.kind);
            if (t.kind == otk::CmdAttr) {
                pos += 4;
                while (text[pos] == '_') { ++pos; }
            }
            std::string const& s = t.value.text;
            if (t.kind == otk::SrcContent) {
                // without the indentation of the block
                while (pos < (int)text.size() && text[pos] == ' ' && text.compare(pos, s.size(), s) != 0) { ++pos; }
            }
            SX_CHECK(at <= pos, "tokens stay in the order of the text");
            SX_CHECK(pos + (int)s.size() <= (int)text.size(), "tokens stay inside the text");
            for (size_t k = 0; k < s.size(); ++k) { SX_CHECK(s[k] == text[pos + k], "tokens keep their text"); }
            at = pos + (int)s.size();
        }
    }
    SX_CHECK(depth == 0, "every level that begins ends");
}

/// Every node lies inside its parent, siblings do not overlap.
static void check_node(OrgNodeGroup& g, int id, int last) {
    int size = g.at(OrgId::FromValue(id + 1)).getFullSize();
    SX_CHECK(id + size - 1 <= last, "a node ends inside its parent");
    int at = id + 1;
    while (at < id + size) {
        check_node(g, at, id + size - 1);
        at += g.at(OrgId::FromValue(at + 1)).getFullSize();
    }
    SX_CHECK(at == id + size, "the parts of a node fill it");
}

static void check_tree(OrgNodeGroup& g, int count) {
    SX_CHECK(g.size() > 0, "there is a tree");
    SX_CHECK(g.at(OrgId::FromValue(1)).kind == onk::StmtList, "the document is a list of statements");
    SX_CHECK(g.at(OrgId::FromValue(1)).getFullSize() == g.size(), "the document holds everything");
    check_node(g, 0, g.size() - 1);
    int prev = -1;
    for (int i = 0; i < g.size(); ++i) {
        OrgNode const& n = g.at(OrgId::FromValue(i + 1));
        if (!n.isTerminal()) { continue; }
        SX_CHECK(!n.getToken().isNil(), "a leaf refers to a token");
        int t = n.getToken().getIndex();
        SX_CHECK(0 <= t && t < g.tokens->size(), "a leaf refers to a token that exists");
        if (t < count) {
            SX_CHECK(prev < t, "leaves hold the tokens in order, each one once");
            prev = t;
        }
    }
}

static void parse_and_check(std::string const& text) {
    OrgTokenGroup base = tokenize(text, LexerParams{}, SourceFileId{0});
    OrgTokenGroup tokens;
    OrgTokenizer  tk{&tokens};
    tk.convert(base);
    check_tokens(text, tokens);
    SX_REACH("regrouped");
    int                          count = tokens.size();
    Lexer<OrgTokenKind, OrgFill> lex{&tokens};
    OrgNodeGroup                 nodes{&tokens};
    OrgParser                    parser{&nodes};
    OrgId                        id = parser.parseFull(lex);
    SX_CHECK(id.getIndex() == 0, "the document is the first node");
    SX_CHECK(lex.finished(), "the whole text is read");
    check_tree(nodes, count);
    SX_REACH("end");
}

extern "C" void any_text() { 
#ifdef TIER_THOROUGH
    parse_and_check(sx::text("t", 0, 2));
#else
    parse_and_check(sx::text("t", 0, 1));
#endif
}

/// The lead of every prefix of one of the snippets, then any byte.
template <size_t N>
static void cut_and_check(const char* const (&snippets)[N]) {
    std::string s   = snippets[sx::pick("snippet", 0, N - 1)];
    int         cut = sx::pick("cut", 1, (int)s.size());
    parse_and_check(s.substr(0, cut) + sx::text("t", 0, 1));
}

/// One of the snippets with one byte replaced by any byte.
template <size_t N>
static void change_and_check(const char* const (&snippets)[N]) {
    std::string s = snippets[sx::pick("snippet", 0, N - 1)];
    s[sx::pick("at", 0, (int)s.size() - 1)] = sx::chr("c");
    parse_and_check(s);
}

#define GROUP(name, table)                                            \
    extern "C" void name##_cut() { cut_and_check(table); }             \
    extern "C" void name##_changed() { change_and_check(table); }
GROUP(links, LINKS)
GROUP(times, TIMES)
GROUP(lists, LISTS)
GROUP(blocks, BLOCKS)
GROUP(commands, COMMANDS)
GROUP(inline_marks, INLINE)
GROUP(documents, DOCS)
