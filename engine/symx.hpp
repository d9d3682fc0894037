// API between harnesses and the symbolic executor. The same harness compiles
// natively against replay.cpp, which feeds back a recorded assignment.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
extern "C" {
uint64_t symx_sym(const char* name, unsigned bits);        // fresh symbolic value
uint64_t symx_pick(const char* name, uint64_t n);          // forks: concrete value in [0, n)
void     symx_assume(bool c);
void     symx_check(bool c, const char* what);             // property assertion
void     symx_reach(const char* label);                    // vacuity witness
uint64_t symx_concretize(uint64_t v);                      // forks over every feasible value
void     symx_expect_throw(const char* what);              // unused path marker
}
namespace sx {
inline uint8_t  u8(const char* n) { return (uint8_t)symx_sym(n, 8); }
inline uint16_t u16(const char* n) { return (uint16_t)symx_sym(n, 16); }
inline uint32_t u32(const char* n) { return (uint32_t)symx_sym(n, 32); }
inline uint64_t u64(const char* n) { return symx_sym(n, 64); }
inline int8_t   i8(const char* n) { return (int8_t)symx_sym(n, 8); }
inline int16_t  i16(const char* n) { return (int16_t)symx_sym(n, 16); }
inline int32_t  i32(const char* n) { return (int32_t)symx_sym(n, 32); }
inline int64_t  i64(const char* n) { return (int64_t)symx_sym(n, 64); }
inline bool     boolean(const char* n) { return symx_sym(n, 1) != 0; }
inline char     chr(const char* n) { return (char)symx_sym(n, 8); }
// value in [lo, hi], symbolic
inline int range(const char* n, int lo, int hi) {
    int v = (int)symx_sym(n, 32);
    symx_assume((lo <= v) & (v <= hi));
    return v;
}
// value in [lo, hi], one path per value
inline int pick(const char* n, int lo, int hi) { return lo + (int)symx_pick(n, (uint64_t)(hi - lo + 1)); }
inline std::string bytes(const char* n, int len) {
    std::string s((size_t)len, '\0');
    for (int i = 0; i < len; ++i) s[(size_t)i] = (char)symx_sym(n, 8);
    return s;
}
// string of length in [lo, hi], any bytes
inline std::string text(const char* n, int lo, int hi) { return bytes(n, pick(n, lo, hi)); }
// string of length in [lo, hi] over the given alphabet
inline std::string word(const char* n, int lo, int hi, std::string_view abc) {
    int         len = pick(n, lo, hi);
    std::string s((size_t)len, '\0');
    for (int i = 0; i < len; ++i) {
        char c  = (char)symx_sym(n, 8);
        bool ok = false;
        for (char a : abc) ok = ok | (c == a);
        symx_assume(ok);
        s[(size_t)i] = c;
    }
    return s;
}
} // namespace sx
#define SX_CHECK(c, what) symx_check((c), what)
#define SX_REACH(l) symx_reach(l)
