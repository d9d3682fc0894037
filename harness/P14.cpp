#include "symx.hpp"
#include <hstd/stdlib/strutils.hpp>
#include <string>
#include <vector>
using namespace hstd;
using S = std::string;

// length announced by a lead byte (1 for bytes that cannot lead)
static int lead(unsigned char b) {
    if (b < 0x80) return 1;
    if (b < 0xC0) return 1;
    if (b < 0xE0) return 2;
    if (b < 0xF0) return 3;
    if (b < 0xF8) return 4;
    if (b < 0xFC) return 5;
    if (b < 0xFE) return 6;
    return 1;
}
// Unicode standard table 3-7, one code point; 0 when ill-formed
static int wellFormed(unsigned char const* p, size_t n) {
    auto in = [&](size_t i, int lo, int hi) { return i < n && lo <= p[i] && p[i] <= hi; };
    if (in(0, 0x00, 0x7F)) return 1;
    if (in(0, 0xC2, 0xDF)) return in(1, 0x80, 0xBF) ? 2 : 0;
    if (in(0, 0xE0, 0xE0)) return in(1, 0xA0, 0xBF) && in(2, 0x80, 0xBF) ? 3 : 0;
    if (in(0, 0xE1, 0xEC) || in(0, 0xEE, 0xEF)) return in(1, 0x80, 0xBF) && in(2, 0x80, 0xBF) ? 3 : 0;
    if (in(0, 0xED, 0xED)) return in(1, 0x80, 0x9F) && in(2, 0x80, 0xBF) ? 3 : 0;
    if (in(0, 0xF0, 0xF0)) return in(1, 0x90, 0xBF) && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF) ? 4 : 0;
    if (in(0, 0xF1, 0xF3)) return in(1, 0x80, 0xBF) && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF) ? 4 : 0;
    if (in(0, 0xF4, 0xF4)) return in(1, 0x80, 0x8F) && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF) ? 4 : 0;
    return 0;
}
extern "C" void validation() {
    S    s = sx::text("s", 0, 5);
    bool ok = true, threw = false;
    for (size_t i = 0; i < s.size() && ok;) {
        int l = wellFormed((unsigned char const*)s.data() + i, s.size() - i);
        ok = l != 0;
        i += (size_t)l;
    }
    try { validate_utf8(s); } catch (std::exception const&) { threw = true; }
    SX_CHECK(threw == !ok, "exactly the well-formed byte sequences are accepted");
    SX_REACH("end");
}
extern "C" void rune_pieces() {
    S    s = sx::text("s", 0, 3);
    auto r = rune_chunks(s);
    S    back;
    size_t at = 0;
    for (auto const& c : r) {
        SX_CHECK(!c.empty() && (int)c.size() == std::min<int>(lead((unsigned char)s[at]), (int)(s.size() - at)), "a piece is one code point");
        at += c.size();
        back += c;
    }
    SX_CHECK(back == s, "the pieces concatenate to the text");
    SX_CHECK(rune_length(s) == (int)r.size() && Str(s).runeLen() == (int)r.size(), "length counts the pieces");
    SX_REACH("end");
}
// well-formed text of n code points has rune length n and never splits a code point
extern "C" void rune_count() {
    int n = sx::pick("n", 0, 3);
    S   s;
    std::vector<S> cps;
    for (int i = 0; i < n; ++i) {
        int l = sx::pick("len", 1, 4);
        S   c = sx::bytes("cp", l);
        symx_assume(wellFormed((unsigned char const*)c.data(), c.size()) == l);
        cps.push_back(c);
        s += c;
    }
    SX_CHECK(rune_length(s) == n && Str(s).runeLen() == n, "length counts code points");
    SX_CHECK(rune_chunks(s) == cps, "pieces are the code points");
    bool threw = false;
    try { validate_utf8(s); } catch (std::exception const&) { threw = true; }
    SX_CHECK(!threw, "well-formed text is accepted");
    int w = sx::pick("width", 0, 4);
    S   pad((size_t)std::max(0, w - n), '.');
    SX_CHECK(left_aligned(s, w, '.').toBase() == s + pad && right_aligned(s, w, '.').toBase() == pad + s, "alignment counts code points");
    SX_REACH("end");
}
extern "C" void styled_letters() {
    int style = sx::pick("style", 0, 14), ch = sx::pick("ch", 0, 255);
    bool letter = ('a' <= ch && ch <= 'z') || ('A' <= ch && ch <= 'Z');
    Str  r = styledUnicodeMapping((char)ch, (AsciiStyle)style);
    if (!letter && !('0' <= ch && ch <= '9')) SX_CHECK(r.toBase() == S(1, (char)ch), "other characters are kept");
    if (style == 0) SX_CHECK(r.toBase() == S(1, (char)ch), "the regular style changes nothing");
    if (ch < 128) {
        bool threw = false;
        try { validate_utf8(r); } catch (std::exception const&) { threw = true; }
        SX_CHECK(!threw && rune_length(r) == 1, "a styled character is one code point");
    }
    if (style >= 2 && letter && ch + 1 != '[' && ch + 1 != '{') {
        Str o = styledUnicodeMapping((char)(ch + 1), (AsciiStyle)style);
        SX_CHECK(o.toBase() != r.toBase(), "neighbouring letters stay distinct");
    }
    SX_CHECK(styledUnicodeMapping(Str("a-") + Str((char)ch), (AsciiStyle)style).toBase()
                 == styledUnicodeMapping('a', (AsciiStyle)style).toBase() + "-" + r.toBase(), "texts are mapped character by character");
    SX_REACH("end");
}
