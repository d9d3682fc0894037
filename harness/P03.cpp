#include "symx.hpp"
#include <cstdlib>
#include <hstd/system/basic_templates.hpp>
#include <hstd/system/bit_utils.hpp>
#include <limits>
#include <type_traits>

template <class T> static T sym(const char* n) { return (T)symx_sym(n, sizeof(T) * 8); }
using W = __int128;
template <class T> static W lo() { return (W)std::numeric_limits<T>::min(); }
template <class T> static W hi() { return (W)std::numeric_limits<T>::max(); }
template <class T> static W clampTo(W x) { return x < lo<T>() ? lo<T>() : x > hi<T>() ? hi<T>() : x; }

template <class T, class O> static void sat() {
    T v = sym<T>("value");
    O c = sym<O>("change");
    SX_CHECK((W)hstd::saturating_add(v, c) == clampTo<T>((W)v + (W)c), "saturating_add is the clamped exact sum");
    SX_CHECK((W)hstd::saturating_sub(v, c) == clampTo<T>((W)v - (W)c), "saturating_sub is the clamped exact difference");
    SX_CHECK((W)hstd::saturating_add_any(v, c) == clampTo<T>((W)v + (W)c), "saturating_add_any is the clamped exact sum");
    SX_REACH("end");
}
template <class T> static void satWith() {
    switch (symx_pick("other", 8)) {
        case 0: sat<T, int8_t>(); break;
        case 1: sat<T, uint8_t>(); break;
        case 2: sat<T, int16_t>(); break;
        case 3: sat<T, uint16_t>(); break;
        case 4: sat<T, int32_t>(); break;
        case 5: sat<T, uint32_t>(); break;
        case 6: sat<T, int64_t>(); break;
        default: sat<T, uint64_t>(); break;
    }
}
extern "C" void saturate_i8() { satWith<int8_t>(); }
extern "C" void saturate_u8() { satWith<uint8_t>(); }
extern "C" void saturate_i16() { satWith<int16_t>(); }
extern "C" void saturate_u16() { satWith<uint16_t>(); }
extern "C" void saturate_i32() { satWith<int32_t>(); }
extern "C" void saturate_u32() { satWith<uint32_t>(); }
extern "C" void saturate_i64() { satWith<int64_t>(); }
extern "C" void saturate_u64() { satWith<uint64_t>(); }

template <class T> static void domain() {
    using D = hstd::value_domain<T>;
    T a = sym<T>("a"), b = sym<T>("b");
    SX_CHECK(D::low() == std::numeric_limits<T>::min() && D::high() == std::numeric_limits<T>::max(), "bounds of the domain");
    SX_CHECK(D::low() <= a && a <= D::high(), "every value is inside the domain");
    SX_CHECK((D::ord(a) == D::ord(b)) == (a == b), "ordinals are distinct for distinct values");
    if constexpr (sizeof(T) < 8 || std::is_signed_v<T>) {
        SX_CHECK((D::ord(a) < D::ord(b)) == (a < b), "ordinals follow the order of values");
    }
    if (a != D::high()) {
        SX_CHECK(D::ord(D::succ(a)) == D::ord(a) + 1, "successor has the next ordinal");
        SX_CHECK(D::prev(D::succ(a)) == a, "prev undoes succ");
    }
    if (a != D::low()) { SX_CHECK(D::succ(D::prev(a)) == a, "succ undoes prev"); }
    SX_REACH("end");
}
extern "C" void domain_integers() {
    switch (symx_pick("type", 8)) {
        case 0: domain<signed char>(); break;
        case 1: domain<uint8_t>(); break;
        case 2: domain<int16_t>(); break;
        case 3: domain<uint16_t>(); break;
        case 4: domain<int32_t>(); break;
        case 5: domain<uint32_t>(); break;
        case 6: domain<int64_t>(); break;
        default: domain<uint64_t>(); break;
    }
}
extern "C" void domain_char() {
    using D = hstd::value_domain<char>;
    char a = sx::chr("a"), b = sx::chr("b");
    SX_CHECK(D::ord(a) == (long long)(unsigned char)a, "character ordinal is its byte value");
    SX_CHECK((D::ord(a) == D::ord(b)) == (a == b), "distinct characters have distinct ordinals");
    SX_CHECK(D::ord(D::low()) == 0 && D::ord(D::high()) == 255, "byte range");
    if (a != D::high()) { SX_CHECK(D::ord(D::succ(a)) == D::ord(a) + 1, "successor has the next ordinal"); }
    SX_REACH("end");
}
enum class Col : short { L = -3, M, N, H = 4 };
extern "C" void domain_ungapped() {
    using D = hstd::value_domain_ungapped<Col, Col::L, Col::H>;
    int raw = sx::range("v", -3, 4);
    Col v   = (Col)raw;
    SX_CHECK(D::ord(v) == raw + 3, "ordinal counts from the lowest enumerator");
    SX_CHECK(D::ord(D::low()) == 0 && D::ord(D::high()) == 7, "ordinals of the bounds");
    if (raw < 4) { SX_CHECK((int)D::succ(v) == raw + 1, "succ"); SX_CHECK(D::prev(D::succ(v)) == v, "prev undoes succ"); }
    if (raw > -3) { SX_CHECK((int)D::prev(v) == raw - 1, "prev"); }
    using I = hstd::value_domain_ungapped<int, -5, 100>;
    int i = sx::range("i", -5, 100);
    SX_CHECK(I::ord(i) == i + 5 && I::low() == -5 && I::high() == 100, "integer subrange");
    if (i < 100) { SX_CHECK(I::succ(i) == i + 1 && I::prev(I::succ(i)) == i, "integer subrange steps"); }
    SX_REACH("end");
}
template <class T> static void masks() {
    T base = sym<T>("base"), mask = sym<T>("mask"), val = sym<T>("val");
    T r = hstd::assign_masked<T>(base, mask, val);
    SX_CHECK((T)(r & mask) == (T)(val & mask), "masked bits take the new value");
    SX_CHECK((T)(r & (T)~mask) == (T)(base & (T)~mask), "bits outside of the mask are untouched");
    SX_CHECK(hstd::masked_equals<T>(r, mask, (T)(val & mask)), "an assigned value is recognised");
    SX_CHECK(hstd::masked_equals<T>(base, mask, val) == ((T)(base & mask) == val), "masked comparison looks at the masked bits only");
    T w = hstd::without_masked_bits<T>(base, mask);
    SX_CHECK((T)(w & mask) == 0 && (T)(w | (T)(base & mask)) == base, "removing bits clears the mask and nothing else");
    constexpr unsigned B = sizeof(T) * 8;
    unsigned           n = (unsigned)sx::pick("mask_size", 1, (int)B);
    T                  top = (T)((T)~(T)0 << (B - n));
    T                  v   = sym<T>("field");
    if (n < B) v = (T)(v & (T)(((T)1 << n) - 1));
    T packed = hstd::assign_masked<T>(base, top, (T)(v << (B - n)));
    SX_CHECK(hstd::masked_bits_right<T>(packed, top, n) == v, "a field packed into the top bits is read back");
    SX_REACH("end");
}
extern "C" void masks_u8() { masks<uint8_t>(); }
extern "C" void masks_u16() { masks<uint16_t>(); }
extern "C" void masks_u32() { masks<uint32_t>(); }
extern "C" void masks_u64() { masks<uint64_t>(); }
