// Native counterpart of the symx_* intrinsics: replays a recorded assignment
// against the natively compiled code, or evaluates the harness on values taken
// from a pseudo random stream (used only to validate the translator).
#include "symx.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <typeinfo>
#include <vector>
#include <signal.h>
#include <unistd.h>

static std::vector<std::pair<std::string, uint64_t>> vals;
static size_t                                        pos;
static bool                                          failed;
static FILE*                                         trace;

static uint64_t next(const char* name, uint64_t n, unsigned bits) {
    uint64_t v = 0;
    if (pos < vals.size()) {
        if (vals[pos].first != name) {
            printf("REPLAY-DIVERGED at %zu: expected %s, asked %s\n", pos, vals[pos].first.c_str(), name);
            fflush(stdout);
            _exit(4);
        }
        v = vals[pos].second;
    }
    ++pos;
    if (bits < 64) v &= (1ull << bits) - 1;
    if (n && v >= n) v = v % n;
    return v;
}
extern "C" {
uint64_t symx_sym(const char* name, unsigned bits) { return next(name, 0, bits); }
uint64_t symx_pick(const char* name, uint64_t n) { return next(name, n, 64); }
void     symx_assume(bool c) {
    if (!c) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _exit(5); }
}
void symx_check(bool c, const char* what) {
    if (!c) { printf("REPLAY-FAIL %s\n", what); fflush(stdout); _exit(1); }
}
void     symx_reach(const char* label) { printf("REACH %s\n", label); }
uint64_t symx_concretize(uint64_t v) { return v; }
void     symx_expect_throw(const char*) {}
void     symx_unresolved() { printf("REPLAY-UNRESOLVED external function\n"); fflush(stdout); _exit(6); }
void     HARNESS_ENTRY();
}
static void onsig(int s) {
    char buf[64];
    int  n = snprintf(buf, sizeof buf, "REPLAY-CRASH signal %d\n", s);
    if (write(1, buf, (size_t)n)) {}
    _exit(1);
}
int main(int argc, char** argv) {
    if (argc > 1) {
        FILE* f = fopen(argv[1], "r");
        if (!f) { fprintf(stderr, "cannot open %s\n", argv[1]); return 3; }
        char     name[256];
        uint64_t v;
        while (fscanf(f, "%255s %lu", name, &v) == 2) vals.emplace_back(name, v);
        fclose(f);
    }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(s, onsig);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    try {
        HARNESS_ENTRY();
    } catch (std::exception const& e) {
        printf("REPLAY-FAIL uncaught exception %s: %s\n", typeid(e).name(), e.what());
        return 1;
    } catch (...) {
        printf("REPLAY-FAIL uncaught exception\n");
        return 1;
    }
    printf("REPLAY-OK\n");
    return 0;
}
