#include "symx.hpp"
#include <cmath>
#include <cstring>
#include <hstd/system/aux_utils.hpp>
#include <hstd/system/ptr_utils.hpp>
#include <limits>

static double dbl(const char* n) {
    u_int64_t b = symx_sym(n, 64);
    double    d;
    std::memcpy(&d, &b, 8);
    return d;
}
extern "C" void close_exact() {
    double a = dbl("a"), b = dbl("b"), r = dbl("rtol"), t = dbl("atol");
    bool   want = std::abs(a - b) <= t + r * std::abs(b);
    SX_CHECK(hstd::isclose(a, b, r, t) == want, "numbers are close exactly when the difference is within the tolerance around the second");
    SX_REACH("end");
}
extern "C" void close_default() {
    double a = dbl("a"), b = dbl("b");
    bool   want = std::abs(a - b) <= 1e-8 + 1e-5 * std::abs(b);
    SX_CHECK(hstd::isclose(a, b) == want, "default tolerances");
    SX_REACH("end");
}
extern "C" void close_special() {
    double a = dbl("a");
    double r = sx::boolean("r") ? 0.0 : 1e-5, t = sx::boolean("t") ? 0.0 : 1e-8;
    if (std::isnan(a)) {
        SX_CHECK(!hstd::isclose(a, 0.0, r, t) && !hstd::isclose(0.0, a, r, t), "not-a-number is close to nothing");
        SX_REACH("nan");
    } else if (std::isinf(a)) {
        SX_CHECK(!hstd::isclose(a, 1.0, r, t), "infinity is not close to a finite number");
        SX_REACH("inf");
    } else {
        SX_CHECK(hstd::isclose(a, a, r, t), "a finite number is close to itself");
        SX_REACH("finite");
    }
}
template <class T, int N> static void block() {
    static T arr[N];
    int      at = (int)sx::range("ptr", 0, N), st = (int)sx::range("start", 0, N);
    int      sz = (int)sx::range("size", 0, N);
    symx_assume(st + sz <= N);
    T const *p = arr + at, *s = arr + st;
    bool     want = st <= at && at < st + sz;
    SX_CHECK(hstd::is_within_memory_block(p, s, (std::size_t)sz) == want, "membership in the half-open block");
    SX_CHECK(hstd::is_pointer_valid(p, s, (std::size_t)sz) == want, "valid pointers are those inside of the block");
    SX_CHECK(!hstd::is_pointer_valid((T const*)nullptr, s, (std::size_t)sz), "null is never valid");
    SX_CHECK(!hstd::is_pointer_valid((T const*)nullptr, (T const*)nullptr, (std::size_t)sz), "null is never valid, even in a block starting at null");
    SX_CHECK(hstd::pointer_distance(s, p) == at - st, "distance counts elements from first to last");
    SX_REACH("end");
}
struct Odd { char c[3]; };
extern "C" void block_char() { block<char, 1000>(); }
extern "C" void block_int() { block<int, 1000>(); }
extern "C" void block_odd() { block<Odd, 200>(); }
extern "C" void block_double() { block<double, 1000>(); }
