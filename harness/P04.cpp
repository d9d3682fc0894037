#include "symx.hpp"
#include <hstd/system/basic_typedefs.hpp>
#include <hstd/system/string_base.hpp>
#include <hstd/system/string_convert.hpp>
#include <vector>
#include <list>

using u64 = unsigned long long;
static int digitOf(char c) { 
    int dec = (c >= '0') & (c <= '9'), hex = (c >= 'A') & (c <= 'F');
    return dec * (c - '0') + hex * (c - 'A' + 10) + (1 - dec - hex) * 99;
 }

// text has `bits`-per-digit digits, zero padded to the width of the type, and
// denotes exactly the value
template <class T> static void textOf(std::string const& s, T v, int bits) {
    size_t width = sizeof(T) * 8 / bits;
    bool   neg   = v < 0;
    SX_CHECK(s.size() == width || (neg && s.size() == width + 1), "text is padded to the width of the type");
    SX_CHECK((!s.empty() && s[0] == '-') == neg, "sign is present exactly for negative values");
    u64 acc = 0;
    for (size_t i = neg ? 1 : 0; i < s.size(); ++i) {
        int d = digitOf(s[i]);
        SX_CHECK(d < (1 << bits), "only digits of the base are used");
        acc = (acc << bits) | (u64)d;
    }
    u64 mag = neg ? (u64)0 - (u64)(long long)v : (u64)v;
    SX_CHECK(acc == mag, "text reads back as the value");
}
template <class T> static void bothOf() {
    fmt::verif_enabled = true;
    T v = (T)symx_sym("v", sizeof(T) * 8);
    if (sx::boolean("hex")) {
        textOf<T>(format_string_to_hex<T>(v), v, 4);
        SX_REACH("hex");
    } else {
        textOf<T>(format_string_to_bin<T>(v), v, 1);
        SX_REACH("bin");
    }
}
extern "C" void text_char() { bothOf<char>(); }
extern "C" void text_uchar() { bothOf<unsigned char>(); }
extern "C" void text_short() { bothOf<short>(); }
extern "C" void text_ushort() { bothOf<unsigned short>(); }
extern "C" void text_int() { bothOf<int>(); }
extern "C" void text_uint() { bothOf<unsigned int>(); }
extern "C" void text_long() { bothOf<long>(); }
extern "C" void text_ulong() { bothOf<unsigned long>(); }
extern "C" void text_llong() { bothOf<long long>(); }
extern "C" void text_ullong() { bothOf<unsigned long long>(); }

// joined text is exactly the elements in order with the separator between
// every two neighbours
extern "C" void join_words() {
    fmt::verif_enabled = true;
    int                      n = sx::pick("count", 0, 4);
    std::string              sep = sx::text("sep", 0, 2);
    std::vector<std::string> in;
    for (int i = 0; i < n; ++i) in.push_back(sx::text("w", 0, 2));
    std::string out;
    if (sx::boolean("list")) out = hstd::join(sep, std::list<std::string>(in.begin(), in.end()));
    else out = hstd::join(sep, in);
    size_t pos = 0;
    for (int i = 0; i < n; ++i) {
        if (i) {
            SX_CHECK(pos + sep.size() <= out.size() && out.compare(pos, sep.size(), sep) == 0, "separator stands between neighbours");
            pos += sep.size();
        }
        SX_CHECK(pos + in[i].size() <= out.size() && out.compare(pos, in[i].size(), in[i]) == 0, "element appears in its place");
        pos += in[i].size();
    }
    SX_CHECK(pos == out.size(), "nothing follows the last element");
    if (n > 2) SX_REACH("many");
    SX_REACH("end");
}
extern "C" void join_numbers() {
    fmt::verif_enabled = true;
    int              n = sx::pick("count", 0, 3);
    std::vector<int> in;
    std::string      want;
    for (int i = 0; i < n; ++i) {
        int d = sx::range("d", 0, 9);
        in.push_back(d);
        if (i) want += ", ";
        want += (char)('0' + d);
    }
    SX_CHECK(hstd::join(", ", in) == want, "numbers are joined in order");
    SX_REACH("end");
}
extern "C" void literal_text() {
    std::string buf = sx::bytes("text", 4);
    int         n   = sx::pick("len", 0, 4);
    std::string got = hstd::operator""_qs(buf.data(), n);
    SX_CHECK(got.size() == (size_t)n && got.compare(0, n, buf, 0, n) == 0, "string literal keeps every character");
    u64 v = sx::u64("num");
    SX_CHECK(hstd::operator""_u8(v) == (unsigned char)v && hstd::operator""_i8(v) == (signed char)v, "narrow literals keep the low byte");
    SX_REACH("end");
}
