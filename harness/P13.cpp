#include "symx.hpp"
#include <hstd/stdlib/strutils.hpp>
#include <string>
#include <vector>
using namespace hstd;
using S = std::string;

static bool same(Vec<Str> const& a, std::vector<S> const& b) {
    if (a.size() != (int)b.size()) return false;
    for (int i = 0; i < a.size(); ++i)
        if (a[i].toBase() != b[i]) return false;
    return true;
}
static bool isIn(char c, char x, char y) { return (c == x) | (c == y); }

// stripping removes exactly the longest prefix and suffix of the given
// characters
extern "C" void strip_ends() {
    S    s  = sx::text("s", 0, 4);
    char l1 = sx::chr("l1"), t1 = sx::chr("t1");
    int  kind = sx::pick("kind", 0, 2);
    CharSet lead{l1, ' '}, trail{t1, '\n'};
    Str  r = kind == 0 ? strip(s, lead, trail) : kind == 1 ? lstrip(s, lead) : rstrip(s, trail);
    size_t b = 0, e = s.size();
    if (kind != 2) while (b < e && isIn(s[b], l1, ' ')) ++b;
    if (kind != 1) while (b < e && isIn(s[e - 1], t1, '\n')) --e;
    SX_CHECK(r.toBase() == s.substr(b, e - b), "stripping removes leading and trailing characters only");
    SX_REACH("end");
}
extern "C" void split_char() {
    S    s = sx::text("s", 0, 4);
    char c = sx::chr("sep");
    std::vector<S> want;
    S cur;
    bool open = false;
    for (char x : s) {
        if (x == c) { want.push_back(cur); cur.clear(); open = false; } else { cur += x; open = true; }
    }
    if (open) want.push_back(cur);
    SX_CHECK(same(split(Str(s), c), want), "splitting gives the pieces between separators");
    SX_REACH("end");
}
extern "C" void split_text() {
    fmt::verif_enabled = true;
    S s = sx::word("s", 0, 4, "ab"), d = sx::word("d", 0, 2, "ab");
    std::vector<S> want;
    if (d.empty()) want.push_back(s);
    else {
        size_t at = 0;
        S cur;
        while (at < s.size()) {
            bool hit = at + d.size() <= s.size();
            for (size_t i = 0; hit && i < d.size(); ++i) hit = s[at + i] == d[i];
            if (hit) { want.push_back(cur); cur.clear(); at += d.size(); } else cur += s[at++];
        }
        want.push_back(cur);
    }
    auto got = split(Str(s), Str(d));
    SX_CHECK(same(got, want), "splitting by text gives the pieces between delimiters");
    Str back = join(Str(d), got);
    SX_CHECK(back.toBase() == s, "joining the pieces gives the text back");
    SX_REACH("end");
}
extern "C" void split_keeping() {
    S s = sx::text("s", 0, 4);
    char c = sx::chr("sep");
    auto got = split_keep_separator(Str(s), CharSet{c, ' '});
    S back;
    for (int i = 0; i < got.size(); ++i) {
        SX_CHECK(!got[i].empty(), "pieces are not empty");
        bool sep = isIn(got[i][0], c, ' ');
        for (char x : got[i]) SX_CHECK(sep ? x == got[i][0] : !isIn(x, c, ' '), "a piece is text or one repeated separator");
        if (0 < i) SX_CHECK(sep ? got[i - 1][0] != got[i][0] : isIn(got[i - 1][0], c, ' '), "pieces are maximal");
        back += got[i];
    }
    SX_CHECK(back == s, "pieces concatenate to the text");
    SX_REACH("end");
}
static S replaced(S const& s, S const& f, S const& t) {
    if (f.empty()) return s;
    S r;
    size_t at = 0;
    while (at < s.size()) {
        bool hit = at + f.size() <= s.size();
        for (size_t i = 0; hit && i < f.size(); ++i) hit = s[at + i] == f[i];
        if (hit) { r += t; at += f.size(); } else r += s[at++];
    }
    return r;
}
extern "C" void replacing() {
    S s = sx::word("s", 0, 4, "ab"), f = sx::word("f", 0, 2, "ab"), t = sx::word("t", 0, 2, "ab");
    S want = replaced(s, f, t);
    SX_CHECK(Str(s).replaceAll(Str(f), Str(t)).toBase() == want, "every occurrence is replaced once");
    S m = s;
    replace_all(m, f, t);
    SX_CHECK(m == want, "replacing in place agrees");
    SX_REACH("end");
}
extern "C" void affixes() {
    S s = sx::text("s", 0, 3), p = sx::text("p", 0, 2);
    bool pre = p.size() <= s.size(), suf = pre;
    for (size_t i = 0; i < p.size() && i < s.size(); ++i) pre = pre & (s[i] == p[i]);
    if (suf) for (size_t i = 0; i < p.size(); ++i) suf = suf & (s[s.size() - p.size() + i] == p[i]);
    SX_CHECK(Str(s).dropPrefix(Str(p)).toBase() == (pre ? s.substr(p.size()) : s), "dropping a prefix removes it when present");
    SX_CHECK(Str(s).dropSuffix(Str(p)).toBase() == (suf ? s.substr(0, s.size() - p.size()) : s), "dropping a suffix removes it when present");
    SX_REACH("end");
}
extern "C" void searching() {
    S s = sx::text("s", 0, 3), p = sx::text("p", 0, 2);
    char c = sx::chr("c");
    bool any = false, sub = false;
    for (char x : s) any = any | (x == c);
    for (size_t i = 0; i + p.size() <= s.size(); ++i) {
        bool ok = true;
        for (size_t j = 0; j < p.size(); ++j) ok = ok & (s[i + j] == p[j]);
        sub = sub | ok;
    }
    SX_CHECK(Str(s).contains(c) == any, "character search");
    SX_CHECK(Str(s).contains(Str(p)) == sub, "text search");
    SX_REACH("end");
}
extern "C" void repeating() {
    S   s = sx::text("s", 0, 3);
    int n = sx::pick("n", 0, 3);
    S   want;
    for (int i = 0; i < n; ++i) want += s;
    SX_CHECK(Str(s).repeated(n).toBase() == want && repeat(Str(s), n).toBase() == want, "repetition");
    SX_CHECK((Str(s) + Str(want)).toBase() == s + want, "concatenation");
    SX_REACH("end");
}
extern "C" void aligning() {
    S    s = sx::bytes("s", sx::pick("len", 0, 3));
    for (char c : s) symx_assume((unsigned char)c < 128);
    int  n = sx::pick("n", -1, 5);
    char c = sx::chr("pad");
    S pad((size_t)std::max(0, n - (int)s.size()), c);
    SX_CHECK(left_aligned(s, n, c).toBase() == s + pad, "left alignment pads on the right");
    SX_CHECK(right_aligned(s, n, c).toBase() == pad + s, "right alignment pads on the left");
    SX_REACH("end");
}
extern "C" void normalizing() {
    S s = sx::text("s", 0, 3), want;
    for (char c : s) {
        bool lo = ('a' <= c) & (c <= 'z'), up = ('A' <= c) & (c <= 'Z'), dg = ('0' <= c) & (c <= '9');
        if (lo | dg) want += c;
        else if (up) want += (char)(c + 32);
    }
    SX_CHECK(normalize(s).toBase() == want, "normalising keeps letters and digits only and lowers them");
    SX_REACH("end");
}
extern "C" void ignoring_case() {
    S a = sx::text("a", 0, 3), b = sx::text("b", 0, 3);
    bool eq = a.size() == b.size();
    auto low = [](char c) { return (char)((('A' <= c) & (c <= 'Z')) ? c + 32 : c); };
    for (size_t i = 0; eq && i < a.size(); ++i) eq = eq & (low(a[i]) == low(b[i]));
    SX_CHECK(iequals(a, b) == eq, "comparison ignores the case of letters only");
    SX_REACH("end");
}
extern "C" void indenting() {
    fmt::verif_enabled = true;
    S   s = sx::word("s", 0, 4, "a\n");
    int n = sx::pick("n", 0, 2);
    S   want;
    bool first = true;
    S cur;
    bool open = false;
    auto put = [&] { if (!first) want += '\n'; first = false; want += S(">") + S((size_t)n, '.') + cur; cur.clear(); open = false; };
    for (char x : s) { if (x == '\n') put(); else { cur += x; open = true; } }
    if (open) put();
    SX_CHECK(indent(s, n, '.', ">").toBase() == want, "every line is indented");
    SX_REACH("end");
}
extern "C" void escaping() {
    S    s = sx::text("s", 0, 3);
    bool q = sx::pick("quote", 0, 1);
    S    want = q ? "\"" : "", lit = "«";
    for (char c : s) {
        if (c == '\t') want += "\\t";
        else if (c == '\n') want += "\\n";
        else if (c == '"' && q) want += "\\\"";
        else want += c;
        if (c == '\n') lit += "␤"; else lit += c;
    }
    if (q) want += "\"";
    lit += "»";
    SX_CHECK(escape_for_write(s, q).toBase() == want, "written text has no raw line break, tab or quote");
    SX_CHECK(escape_literal(s) == lit, "literals have no raw line break");
    SX_REACH("end");
}
extern "C" void visible_names() {
    char c = (char)sx::pick("c", 0, 255);
    auto [u, a] = visibleName(c);
    bool hidden = ((unsigned char)c <= 32) || c == 127;
    if (hidden) {
        SX_CHECK(rune_length(u) == 1 && u.size() == 3 && a.size() >= 4 && a[0] == '[' && a[a.size() - 1] == ']', "control characters have visible names");
    } else {
        SX_CHECK(u.toBase() == S(1, c) && a.toBase() == S(1, c), "visible characters stand for themselves");
    }
    for (int d = 0; d < 256; ++d)
        if ((char)d != c) {
            auto o = visibleName((char)d);
            SX_CHECK(o.first.toBase() != u.toBase() && o.second.toBase() != a.toBase(), "names are distinct");
        }
    S   one(1, c);
    bool uni = sx::pick("unicode", 0, 1);
    auto v = visibleUnicodeName(Str(one + "x"), uni);
    SX_CHECK(v.size() == 2 && v[0].toBase() == (uni ? u : a).toBase() && v[1].toBase() == "x", "names of a text");
    SX_REACH("end");
}
// greedy wrapping: words in order, no line wider than requested unless it is
// one word, and a word is wrapped only when it does not fit
extern "C" void wrapping() {
    int n = sx::pick("n", 0, 4), width = sx::pick("width", 0, 8);
    bool just = sx::pick("justified", 0, 1);
    Vec<Str> words;
    for (int i = 0; i < n; ++i) {
        int len = sx::pick("len", 1, 3);
        S   w(len, 'a');
        for (char& c : w) { c = sx::chr("w"); symx_assume((c != ' ') & (c != '\n')); }
        words.push_back(w);
    }
    S   got = wrap_text(words, width, just);
    std::vector<S> lines;
    { S cur; for (char c : got) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; } if (n) lines.push_back(cur); }
    int at = 0;
    for (size_t l = 0; l < lines.size(); ++l) {
        S const& line = lines[l];
        int first = at, sum = 0;
        size_t i = 0;
        std::vector<int> gaps;
        while (i < line.size() && at < n) {
            int gap = 0;
            while (i < line.size() && line[i] == ' ') { ++gap; ++i; }
            if (first != at) gaps.push_back(gap); else SX_CHECK(gap == 0, "lines start with a word");
            Str const& w = words[at];
            SX_CHECK(i + w.size() <= line.size() && line.substr(i, w.size()) == w.toBase(), "words keep their order and text");
            i += w.size(); sum += w.size(); ++at;
        }
        int k = at - first;
        SX_CHECK(i == line.size() && k > 0, "lines hold words only");
        SX_CHECK(k == 1 || (int)line.size() <= width, "lines of several words fit");
        if (at < n) SX_CHECK(sum + k - 1 + 1 + words[at].size() > width, "a word is wrapped only when it does not fit");
        for (size_t g = 0; g < gaps.size(); ++g) {
            if (just) SX_CHECK(gaps[g] >= 1 && (g == 0 || (gaps[g] <= gaps[g - 1] && gaps[g - 1] - gaps[g] <= 1) ), "padding is even");
            else SX_CHECK(gaps[g] == 1, "words are separated by one space");
        }
        if (just && k > 1) SX_CHECK((int)line.size() == width, "justified lines have the full width");
    }
    SX_CHECK(at == n, "no word is lost");
    SX_REACH("end");
}
extern "C" void grouped_bits() {
    static const char kinds[] = {'b', 'o', 'x'};
    char  k   = kinds[sx::pick("kind", 0, 2)];
    int   pad = sx::pick("pad", 0, 9);
    u64   v   = sx::u64("v");
    symx_assume(v < (k == 'b' ? 512u : k == 'o' ? 262144u : 0xffffffffu));
    S r = format_integer_bits(v, k, pad);
    SX_CHECK(r.size() > 2 && r[0] == '0' && r[1] == k, "prefix names the base");
    u64 back = 0, sh = k == 'b' ? 1 : k == 'o' ? 3 : 4;
    int digits = 0;
    for (size_t i = 2; i < r.size(); ++i) {
        bool sepPlace = (r.size() - i) % 5 == 0;
        SX_CHECK((r[i] == '\'') == sepPlace, "digits are grouped by four from the right");
        if (sepPlace) continue;
        u64 d = (u64)((r[i] >= 'a') ? r[i] - 'a' + 10 : r[i] - '0');
        SX_CHECK(d < (1ull << sh), "digits of the base");
        back = (back << sh) | d;
        ++digits;
    }
    SX_CHECK(back == v, "the digits denote the value");
    SX_CHECK(digits >= pad, "padding is applied");
    if (digits > std::max(pad, 1)) SX_CHECK(r[2] != '0', "no superfluous zeros");
    SX_REACH("end");
}
extern "C" void decimal_padding() {
    int pad = sx::pick("pad", 0, 5);
    u64 v   = sx::u64("v");
    symx_assume(v < 20000);
    S r = format_integer_bits(v, 'd', pad);
    u64 back = 0;
    for (char c : r) { SX_CHECK(c >= '0' && c <= '9', "decimal digits"); back = back * 10 + (u64)(c - '0'); }
    SX_CHECK(back == v && (int)r.size() >= pad && ((int)r.size() <= std::max(pad, 1) || r[0] != '0'), "padded decimal");
    SX_REACH("end");
}
// every cell line appears at the column where its column starts
extern "C" void tables() {
    int rows = sx::pick("rows", 0, 2), pad = 0;
    Vec<Vec<Str>> t;
    int cols = 0;
    for (int r = 0; r < rows; ++r) {
        Vec<Str> row;
        int c = sx::pick("cols", 0, 2);
        cols  = std::max(cols, c);
        for (int i = 0; i < c; ++i) {
            S cell = sx::bytes("cell", sx::pick("len", 0, 2));
            for (char x : cell) symx_assume((x == 'a') | (x == '\n'));
            row.push_back(cell);
        }
        t.push_back(row);
    }
    auto lines = [](S const& s) { std::vector<S> r; S cur; bool open = false; for (char c : s) { if (c == '\n') { r.push_back(cur); cur.clear(); open = false; } else { cur += c; open = true; } } if (open) r.push_back(cur); return r; };
    std::vector<int> w((size_t)cols, 0);
    for (auto& r : t) for (int i = 0; i < r.size(); ++i) for (auto& l : lines(r[i])) w[i] = std::max(w[i], (int)l.size());
    S want;
    if (cols)
    for (int r = 0; r < rows; ++r) {
        size_t h = 1;
        for (int i = 0; i < t[r].size(); ++i) h = std::max(h, lines(t[r][i]).size());
        for (size_t l = 0; l < h; ++l) {
            for (int i = 0; i < cols; ++i) {
                S cell;
                if (i < t[r].size()) { auto ls = lines(t[r][i]); if (l < ls.size()) cell = ls[l]; }
                want += cell + S((size_t)w[i] - cell.size(), ' ');
                if (i + 1 < cols) want += "|";
            }
            want += '\n';
        }
        if (r + 1 < rows) {
            for (int i = 0; i < cols; ++i) { want += S((size_t)w[i], '-'); if (i + 1 < cols) want += "+"; }
            want += '\n';
        }
    }
    (void)pad;
    SX_CHECK(format_table(t, "|", "+", '-') == want, "table layout");
    SX_REACH("end");
}
extern "C" void numbers() {
    // text of an integer reads back
    int  n = sx::pick("digits", 1, 4);
    bool neg = sx::pick("neg", 0, 1);
    S    s = neg ? "-" : "";
    long v = 0;
    for (int i = 0; i < n; ++i) {
        char c = sx::chr("d");
        symx_assume((c >= '0') & (c <= '9'));
        s += c;
        v = v * 10 + (c - '0');
    }
    if (neg) v = -v;
    SX_CHECK(Str(s).toInt() == v && Str(s).toI64() == v, "integer text reads back");
    if (!neg) SX_CHECK(Str(s).toU64() == (u64)v, "unsigned text reads back");
    SX_REACH("end");
}
