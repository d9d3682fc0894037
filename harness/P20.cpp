// Lexing text loses nothing, finishes, and records where each token starts.
#include "symx.hpp"
#include "org_snippets.hpp"
#include <haxorg/base_lexer/base_token_tokenize.hpp>

using namespace org::parse;
using namespace hstd;
using otk = OrgTokenKind;

/// Tokens of these kinds stand for exactly this text.
static const struct { otk kind; const char* text; } FIXED[] = {
    {otk::ParBegin, "("}, {otk::ParEnd, ")"}, {otk::Percent, "%"}, {otk::SingleQuote, "'"},
    {otk::DoubleQuote, "\""}, {otk::Underline, "_"}, {otk::Semicolon, ";"}, {otk::Comma, ","},
    {otk::Circumflex, "^"}, {otk::Pipe, "|"}, {otk::TrailingPipe, "|"}, {otk::Backtick, "`"},
    {otk::Dollar, "$"}, {otk::Exclamation, "!"}, {otk::Ampersand, "&"}, {otk::ForwardSlash, "/"},
    {otk::LinkEnd, "]]"}, {otk::LinkSplit, "]["}, {otk::LinkBegin, "[["}, {otk::BraceEnd, "]"},
    {otk::BraceBegin, "["}, {otk::DoubleSlash, "\\\\"}, {otk::Asterisk, "*"}, {otk::Plus, "+"},
    {otk::DoubleColon, "::"}, {otk::Colon, ":"}, {otk::TripleAngleEnd, ">>>"},
    {otk::DoubleAngleEnd, ">>"}, {otk::AngleEnd, ">"}, {otk::TripleAngleBegin, "<<<"},
    {otk::DoubleAngleBegin, "<<"}, {otk::AngleBegin, "<"}, {otk::DoubleHash, "##"},
    {otk::Equals, "="}, {otk::TimeArrow, "=>"}, {otk::Tilda, "~"}, {otk::DoubleDash, "--"},
    {otk::Minus, "-"}, {otk::CurlyBegin, "{"}, {otk::LineCommand, "#+"},
    {otk::CriticAddBegin, "{++"}, {otk::CriticAddEnd, "++}"}, {otk::CriticDeleteBegin, "{--"},
    {otk::CriticDeleteEnd, "--}"}, {otk::CriticHighlightBegin, "{=="},
    {otk::CriticHighlightEnd, "==}"}, {otk::CriticReplaceBegin, "{~~"},
    {otk::CriticReplaceMiddle, "~>"}, {otk::CriticReplaceEnd, "~~}"},
    {otk::CriticCommentBegin, "{>>"}, {otk::CriticCommentEnd, "<<}"},
    {otk::LinkProtocolCustomId, "#"},
};

/// Tokens of these kinds consist of nothing but these characters.
static const struct { otk kind; const char* abc; } MADE_OF[] = {
    {otk::Newline, "\n"}, {otk::MediumNewline, "\n "}, {otk::LongNewline, "\n "},
    {otk::Whitespace, " "}, {otk::LeadingSpace, " "}, {otk::SubtreeStars, "*"},
    {otk::TextSeparator, "-"}, {otk::TableSeparator, " |-+"}, {otk::Number, "0123456789"},
    {otk::Date, "0123456789-"}, {otk::LeadingMinus, " -"}, {otk::LeadingPlus, " +"},
    {otk::LeadingPipe, " |"}, {otk::LeadingNumber, " 0123456789.)"}, {otk::CurlyEnd, "}"},
    {otk::Checkbox, "[xX -]"}, {otk::SubtreeCompletion, "[0123456789/%]"},
    {otk::TimeRepeaterSpec, ".+"}, {otk::Time, "0123456789:aApPmM"},
};

static void check_kind(OrgToken const& t) {
    std::string const& s = t.value.text;
    for (auto const& f : FIXED) {
        if (f.kind == t.kind) {
            std::string_view want = f.text;
            bool same = s.size() == want.size();
            for (size_t i = 0; same && i < s.size(); ++i) { symx_check(s[i] == want[i], "punctuation token holds its characters"); }
            SX_CHECK(same, "punctuation token has the length of its characters");
        }
    }
    for (auto const& f : MADE_OF) {
        if (f.kind == t.kind) {
            for (char c : s) {
                bool in = false;
                for (char const* a = f.abc; *a; ++a) { in |= c == *a; }
                SX_CHECK(in, "token holds only the characters of its kind");
            }
        }
    }
}

/// A lead byte whose sequence is cut short by a line break makes the line of
/// everything after it a matter of convention.
static bool broken_by_newline(std::string const& text) {
    bool res = false;
    for (size_t i = 0; i < text.size(); ++i) {
        unsigned char c = text[i];
        for (size_t k = 1; k < 4 && i + k < text.size(); ++k) {
            unsigned char lead = k == 1 ? 0xC0 : k == 2 ? 0xE0 : 0xF0;
            res |= (c >= lead) & (text[i + k] == '\n');
        }
    }
    return res;
}

static void lex_and_check(std::string const& text) {
    symx_assume(!broken_by_newline(text));
    OrgTokenGroup toks = tokenize(text, LexerParams{}, SourceFileId{0});

    bool ascii = true;
    for (char c : text) { ascii &= (unsigned char)c < 128; }
    size_t at = 0, line = 0, col = 0;
    for (int i = 0; i < toks.size(); ++i) {
        OrgToken const& t = toks.tokens.atIndex(i);
        std::string const& s = t.value.text;
        SX_CHECK(s.size() <= text.size() - at, "tokens do not extend past the text");
        bool same = true;
        for (size_t k = 0; k < s.size(); ++k) { same &= s[k] == text[at + k]; }
        SX_CHECK(same, "token text is the text at its place");
        check_kind(t);
        SX_CHECK(t.value.loc.has_value(), "every token has a location");
        SX_CHECK(t.value.loc->pos == (int)at, "token offset is where its text starts");
        SX_CHECK(t.value.loc->line == (int)line, "token line is where its text starts");
        if (ascii) {
            SX_CHECK(t.value.loc->column == (int)col, "token column is where its text starts");
        }
        SX_CHECK(t.value.loc->file_id == SourceFileId{0}, "token file is the lexed file");
        for (size_t k = 0; k < s.size(); ++k) {
            if (text[at + k] == '\n') {
                ++line;
                col = 0;
            } else {
                ++col;
            }
        }
        at += s.size();
    }
    SX_CHECK(at == text.size(), "tokens cover the whole text");
    SX_REACH("end");
}

extern "C" void any_text() {
#ifdef TIER_THOROUGH
    lex_and_check(sx::text("t", 0, 3));
#else
    lex_and_check(sx::text("t", 0, 2));
#endif
}

/// One of the snippets, cut anywhere, then an arbitrary byte or nothing.
template <size_t N>
static void cut_and_check(const char* const (&snippets)[N]) {
    std::string s = snippets[sx::pick("snippet", 0, N - 1)];
    int cut = sx::pick("cut", 1, (int)s.size());
#ifdef TIER_THOROUGH
    static const char* const lead[] = {"", "  ", "a ", "\n"};
    s = std::string(lead[sx::pick("lead", 0, 3)]) + s.substr(0, cut) + sx::text("t", 0, 1);
#else
    s = s.substr(0, cut) + sx::text("t", 0, 1);
#endif
    lex_and_check(s);
}

/// One of the snippets with one byte replaced by any byte.
template <size_t N>
static void change_and_check(const char* const (&snippets)[N]) {
    std::string s = snippets[sx::pick("snippet", 0, N - 1)];
    s[sx::pick("at", 0, (int)s.size() - 1)] = sx::chr("c");
    lex_and_check(s);
}

#define GROUP(name, table)                                            \
    extern "C" void name##_cut() { cut_and_check(table); }             \
    extern "C" void name##_changed() { change_and_check(table); }
GROUP(links, LINKS)
GROUP(times, TIMES)
GROUP(lists, LISTS)
GROUP(blocks, BLOCKS)
GROUP(commands, COMMANDS)
GROUP(inline_marks, INLINE)

/// Every known command is recognised by its name, whatever its letter case and
/// however many dashes or underscores it is written with.
static const struct { const char* name; otk kind; } NAMES[] = {
    {"columns", otk::CmdColumns}, {"tblfm", otk::CmdTblfm}, {"options", otk::CmdOptions},
    {"tags", otk::CmdTagsRaw}, {"drawers", otk::CmdDrawersRaw}, {"category", otk::CmdCategoryRaw},
    {"priorities", otk::CmdPrioritiesRaw}, {"html_head", otk::CmdHtmlHeadRaw},
    {"latex_header_extra", otk::CmdLatexHeaderExtraRaw}, {"title", otk::CmdTitle},
    {"author", otk::CmdAuthor}, {"filetags", otk::CmdFiletags}, {"caption", otk::CmdCaption},
    {"date", otk::CmdDateRaw}, {"link", otk::CmdLinkRaw}, {"description", otk::CmdDescription},
    {"language", otk::CmdLanguage}, {"creator", otk::CmdCreator}, {"name", otk::CmdName},
    {"email", otk::CmdEmailRaw}, {"macro", otk::CmdMacroRaw}, {"bind", otk::CmdBindRaw},
    {"exclude_tags", otk::CmdExcludeTagsRaw}, {"select_tags", otk::CmdSelectTagsRaw},
    {"keywords", otk::CmdKeywordsRaw}, {"setupfile", otk::CmdSetupfileRaw},
    {"startup", otk::CmdStartup}, {"seq_todo", otk::CmdSeqTodoRaw},
    {"constants", otk::CmdConstants}, {"results", otk::CmdResults}, {"include", otk::CmdInclude},
    {"header", otk::CmdHeader}, {"call", otk::CmdCall}, {"row", otk::CmdRow},
    {"cell", otk::CmdCell}, {"latex_class", otk::CmdLatexClass},
    {"latex_compiler", otk::CmdLatexCompiler}, {"latex_header", otk::CmdLatexHeader},
    {"latex_class_options", otk::CmdLatexClassOptions}, {"attr_html", otk::CmdAttr},
    {"begin_quote", otk::CmdQuoteBegin}, {"end_quote", otk::CmdQuoteEnd},
    {"begin_center", otk::CmdCenterBegin}, {"end_center", otk::CmdCenterEnd},
    {"begin_verse", otk::CmdVerseBegin}, {"end_verse", otk::CmdVerseEnd},
    {"begin_comment", otk::CmdCommentBegin}, {"end_comment", otk::CmdCommentEnd},
    {"begin_src", otk::CmdSrcBegin}, {"begin_export", otk::CmdExportBegin},
    {"begin_example", otk::CmdExampleBegin}, {"begin_table", otk::CmdTableBegin},
    {"end_table", otk::CmdTableEnd}, {"custom", otk::CmdCustomRaw},
};

extern "C" void command_names() {
    auto const& n = NAMES[sx::pick("name", 0, std::size(NAMES) - 1)];
    std::string name = n.name;
    int         at   = sx::pick("at", 0, (int)name.size() - 1);
    if (name[at] != '_') { name[at] = (char)(name[at] ^ (sx::boolean("upper") ? 0x20 : 0)); }
    std::string   text = "#+" + name + (sx::pick("colon", 0, 1) ? ":" : "") + " x";
    OrgTokenGroup toks = tokenize(text, LexerParams{}, SourceFileId{0});
    SX_CHECK(toks.size() >= 2, "a command gives its prefix and its name");
    SX_CHECK(toks.tokens.atIndex(0).kind == otk::LineCommand, "a command starts with its prefix");
    SX_CHECK(toks.tokens.atIndex(1).kind == n.kind, "a command is recognised by its name");
    lex_and_check(text);
}

/// Words and numbers come out whole: letters stay together as one word.
extern "C" void plain_words() {
    std::string a = sx::word("a", 1, 3, "abkzQ"), b = sx::word("b", 1, 2, "059");
    OrgTokenGroup t = tokenize(a + " " + b + " " + a, LexerParams{}, SourceFileId{0});
    SX_CHECK(t.size() == 5, "two words, a number and two spaces");
    SX_CHECK(t.tokens.atIndex(0).kind == otk::Word && t.tokens.atIndex(4).kind == otk::Word, "letters form a word");
    SX_CHECK(t.tokens.atIndex(2).kind == otk::Number, "digits form a number");
    SX_CHECK(t.tokens.atIndex(1).kind == otk::Whitespace && t.tokens.atIndex(3).kind == otk::Whitespace, "spaces in between");
    SX_REACH("end");
}

/// Line breaks are classified by their number, blank lines included.
extern "C" void line_breaks() {
    int         n    = sx::pick("n", 1, 4);
    std::string text = "a";
    for (int i = 0; i < n; ++i) {
        if (i) { text += std::string(sx::pick("blank", 0, 2), ' '); }
        text += "\n";
    }
    text += sx::word("next", 1, 1, "bc1(");
    OrgTokenGroup t = tokenize(text, LexerParams{}, SourceFileId{0});
    SX_CHECK(t.size() == 3, "word, break, next");
    otk k = t.tokens.atIndex(1).kind;
    SX_CHECK(k == (n == 1 ? otk::Newline : n == 2 ? otk::MediumNewline : otk::LongNewline), "break kind by number of line ends");
    lex_and_check(text);
}
