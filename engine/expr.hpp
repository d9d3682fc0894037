// Hash-consed bit-vector expressions, simplifier, evaluator and Z3 bridge.
#pragma once
#include <array>
#include <bit>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i64 = int64_t; using i32 = int32_t;
using u128 = unsigned __int128; using i128 = __int128;

enum EK : u8 {
    EConst, EVar, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor, EShl, ELShr, EAShr,
    EEq, EUlt, EUle, ESlt, ESle, EIte, EConcat, EExtract, EZExt, ESExt,
    // floating point; operands are IEEE bit patterns of 32 or 64 bits
    EFAdd, EFSub, EFMul, EFDiv, EFOeq, EFOlt, EFOle, EFUno, EFSqrt,
    ESIToFP, EUIToFP, EFPToSI, EFPToUI, EFPExt, EFPTrunc, EFFloor, EFCeil, EFTruncI, EFRoundE
};

struct VarSet {
    std::array<u64, 8> b{};
    bool inter(VarSet const& o) const {
        for (int i = 0; i < 8; ++i) if (b[i] & o.b[i]) return true;
        return false;
    }
    void add(VarSet const& o) { for (int i = 0; i < 8; ++i) b[i] |= o.b[i]; }
    bool has(u32 v) const { return (b[v >> 6] >> (v & 63)) & 1; }
};

struct Expr {
    EK kind; u16 width; u32 id;
    u128 c; // constant value, variable index, or extract offset
    Expr *a, *b, *d;
    VarSet vars;
    u64 evalEpoch; u128 evalVal;
    Z3_ast ast, bast;
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ s) - s);
}

struct ExprCtx {
    std::deque<Expr> arena;
    struct H {
        size_t operator()(Expr const* e) const {
            u64 h = e->kind * 1000003ull + e->width * 7919ull;
            auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
            mix((u64)e->c); mix((u64)(e->c >> 64)); mix((u64)e->a); mix((u64)e->b); mix((u64)e->d);
            return h;
        }
    };
    struct Q {
        bool operator()(Expr const* x, Expr const* y) const {
            return x->kind == y->kind && x->width == y->width && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d;
        }
    };
    std::unordered_set<Expr*, H, Q> table;
    struct VarInfo { std::string name; unsigned width; };
    std::vector<VarInfo> vars;
    u64 epoch = 0;
    Expr *T, *F;

    ExprCtx() { T = cst(1, 1); F = cst(0, 1); }

    Expr* intern(Expr const& p) {
        auto it = table.find(const_cast<Expr*>(&p));
        if (it != table.end()) return *it;
        arena.push_back(p);
        Expr* e = &arena.back();
        e->id = arena.size(); e->evalEpoch = 0; e->ast = nullptr; e->bast = nullptr;
        e->vars = VarSet{};
        if (e->kind == EVar) e->vars.b[(u32)e->c >> 6] |= 1ull << ((u32)e->c & 63);
        if (e->a) e->vars.add(e->a->vars);
        if (e->b) e->vars.add(e->b->vars);
        if (e->d) e->vars.add(e->d->vars);
        table.insert(e);
        return e;
    }
    Expr* raw(EK k, unsigned w, u128 c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
        Expr p{}; p.kind = k; p.width = w; p.c = c; p.a = a; p.b = b; p.d = d;
        return intern(p);
    }
    Expr* cst(u128 v, unsigned w) { return raw(EConst, w, v & maskw(w)); }
    Expr* var(std::string const& name, unsigned w) {
        if (vars.size() >= 512) { fprintf(stderr, "too many symbolic variables\n"); exit(3); }
        vars.push_back({name, w});
        return raw(EVar, w, vars.size() - 1);
    }
    static bool isC(Expr* e) { return e->kind == EConst; }
    static bool isC(Expr* e, u128 v) { return e->kind == EConst && e->c == (v & maskw(e->width)); }

    // ---- constant semantics shared by folding and evaluation ----
    static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
    static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
    static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
    static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }
    static u128 applyC(EK k, unsigned w, unsigned aw, u128 c, u128 a, u128 b, u128 d) {
        u128 m = maskw(w);
        switch (k) {
            case EAdd: return (a + b) & m;
            case ESub: return (a - b) & m;
            case EMul: return (a * b) & m;
            case EUDiv: return b == 0 ? m : (a / b) & m;
            case EURem: return b == 0 ? a : (a % b) & m;
            case ESDiv: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return (x < 0 ? 1 : m); if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
            case ESRem: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
            case EAnd: return a & b;
            case EOr: return a | b;
            case EXor: return a ^ b;
            case EShl: return b >= w ? 0 : (a << (unsigned)b) & m;
            case ELShr: return b >= w ? 0 : (a >> (unsigned)b);
            case EAShr: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
            case EEq: return a == b;
            case EUlt: return a < b;
            case EUle: return a <= b;
            case ESlt: return sextw(a, aw) < sextw(b, aw);
            case ESle: return sextw(a, aw) <= sextw(b, aw);
            case EIte: return a ? b : d;
            case EConcat: return 0; // handled by caller (needs widths)
            case EExtract: return (a >> (unsigned)c) & m;
            case EZExt: return a;
            case ESExt: return (u128)sextw(a, aw) & m;
            case EFAdd: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
            case EFSub: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
            case EFMul: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
            case EFDiv: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
            case EFOeq: return aw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
            case EFOlt: return aw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
            case EFOle: return aw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
            case EFUno: return aw == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
            case EFSqrt: return w == 64 ? fromD(std::sqrt(asD(a))) : fromF(std::sqrt(asF(a)));
            case EFFloor: return w == 64 ? fromD(std::floor(asD(a))) : fromF(std::floor(asF(a)));
            case EFCeil: return w == 64 ? fromD(std::ceil(asD(a))) : fromF(std::ceil(asF(a)));
            case EFTruncI: return w == 64 ? fromD(std::trunc(asD(a))) : fromF(std::trunc(asF(a)));
            case EFRoundE: return w == 64 ? fromD(std::nearbyint(asD(a))) : fromF(std::nearbyint(asF(a)));
            case ESIToFP: { i64 x = (i64)sextw(a, aw); return w == 64 ? fromD((double)x) : fromF((float)x); }
            case EUIToFP: { u64 x = (u64)a; return w == 64 ? fromD((double)x) : fromF((float)x); }
            case EFPToSI: { double x = aw == 64 ? asD(a) : asF(a); if (!(x > -9.3e18 && x < 9.3e18)) return (u128)1 << (w - 1); return (u128)(i128)(i64)x & m; }
            case EFPToUI: { double x = aw == 64 ? asD(a) : asF(a); if (!(x > -1 && x < 1.85e19)) return m; return (u128)(u64)x & m; }
            case EFPExt: return fromD((double)asF(a));
            case EFPTrunc: return fromF((float)asD(a));
            default: return 0;
        }
    }

    Expr* bnot(Expr* e) { return bin(EXor, e, T); }
    Expr* eq(Expr* a, Expr* b) { return bin(EEq, a, b); }
    Expr* band(Expr* a, Expr* b) { return bin(EAnd, a, b); }
    Expr* bor(Expr* a, Expr* b) { return bin(EOr, a, b); }

    static bool isCmp(EK k) { return k >= EEq && k <= ESle; }
    static bool isFCmp(EK k) { return k >= EFOeq && k <= EFUno; }

    Expr* bin(EK k, Expr* a, Expr* b) {
        unsigned w = (isCmp(k) || isFCmp(k)) ? 1 : a->width;
        if (a->width != b->width) { fprintf(stderr, "width mismatch kind %d: %d %d\n", k, a->width, b->width); abort(); }
        if (isC(a) && isC(b)) return cst(applyC(k, w, a->width, 0, a->c, b->c, 0), w);
        bool comm = k == EAdd || k == EMul || k == EAnd || k == EOr || k == EXor || k == EEq;
        if (comm && isC(a)) std::swap(a, b);
        // operate through Ite with constant branches
        if (isC(b) && a->kind == EIte && isC(a->b) && isC(a->d) && !isFCmp(k) && k < EFAdd)
            return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
        if (isC(a) && b->kind == EIte && isC(b->b) && isC(b->d) && !isFCmp(k) && k < EFAdd)
            return ite(b->a, bin(k, a, b->b), bin(k, a, b->d));
        u128 m = maskw(a->width);
        switch (k) {
            case EAdd:
                if (isC(b, 0)) return a;
                if (isC(b) && a->kind == EAdd && isC(a->b)) return bin(EAdd, a->a, cst(a->b->c + b->c, w));
                break;
            case ESub:
                if (a == b) return cst(0, w);
                if (isC(b)) return bin(EAdd, a, cst(0 - b->c, w));
                if (a->kind == EAdd && a->a == b) return a->b;
                if (a->kind == EAdd && a->b == b) return a->a;
                if (a->kind == EAdd && b->kind == EAdd && a->a == b->a) return bin(ESub, a->b, b->b);
                break;
            case EMul:
                if (isC(b, 0)) return b;
                if (isC(b, 1)) return a;
                if (isC(b) && std::popcount((u64)b->c) == 1 && (b->c >> 64) == 0 && w <= 64)
                    return bin(EShl, a, cst(std::countr_zero((u64)b->c), w));
                break;
            case EAnd:
                if (a == b) return a;
                if (isC(b, 0)) return b;
                if (isC(b, m)) return a;
                if (isC(b) && a->kind == EZExt && (maskw(a->a->width) & ~b->c) == 0) return a;
                if (w == 1 && a->kind == EXor && isC(a->b, 1) && a->a == b) return F;
                if (w == 1 && b->kind == EXor && isC(b->b, 1) && b->a == a) return F;
                if (isC(b) && w <= 64) { // low mask -> zext(trunc)
                    u64 v = (u64)b->c;
                    if ((v & (v + 1)) == 0 && v) { unsigned n = std::popcount(v); return zext(extract(a, 0, n), w); }
                }
                break;
            case EOr:
                if (a == b) return a;
                if (isC(b, 0)) return a;
                if (isC(b, m)) return b;
                if (w == 1 && a->kind == EXor && isC(a->b, 1) && a->a == b) return T;
                if (w == 1 && b->kind == EXor && isC(b->b, 1) && b->a == a) return T;
                break;
            case EXor:
                if (a == b) return cst(0, w);
                if (isC(b, 0)) return a;
                if (isC(b) && a->kind == EXor && isC(a->b)) return bin(EXor, a->a, cst(a->b->c ^ b->c, w));
                if (w == 1 && isC(b, 1) && a->kind == EUlt) return bin(EUle, a->b, a->a);
                if (w == 1 && isC(b, 1) && a->kind == EUle) return bin(EUlt, a->b, a->a);
                if (w == 1 && isC(b, 1) && a->kind == ESlt) return bin(ESle, a->b, a->a);
                if (w == 1 && isC(b, 1) && a->kind == ESle) return bin(ESlt, a->b, a->a);
                break;
            case EShl: case ELShr: case EAShr:
                if (isC(b, 0)) return a;
                if (isC(b) && b->c >= w && k != EAShr) return cst(0, w);
                if (isC(b) && k == ELShr) { // zext(extract)
                    unsigned s = (unsigned)b->c; return zext(extract(a, s, w - s), w);
                }
                if (isC(b) && k == EShl) {
                    unsigned s = (unsigned)b->c; return concat(extract(a, 0, w - s), cst(0, s));
                }
                break;
            case EUDiv: case ESDiv: if (isC(b, 1)) return a;
                if (k == EUDiv && isC(b) && w <= 64 && std::popcount((u64)b->c) == 1) return bin(ELShr, a, cst(std::countr_zero((u64)b->c), w));
                break;
            case EURem:
                if (isC(b) && w <= 64 && std::popcount((u64)b->c) == 1) return bin(EAnd, a, cst(b->c - 1, w));
                break;
            case EEq:
                if (a == b) return T;
                if (a->width == 1 && isC(b)) return b->c ? a : bnot(a);
                if (isC(b)) {
                    if (a->kind == EZExt) {
                        if (b->c & ~maskw(a->a->width)) return F;
                        return eq(a->a, cst(b->c, a->a->width));
                    }
                    if (a->kind == ESExt) {
                        Expr* lo = cst(b->c, a->a->width);
                        if (((u128)sextw(lo->c, a->a->width) & m) != b->c) return F;
                        return eq(a->a, lo);
                    }
                    if (a->kind == EAdd && isC(a->b)) return eq(a->a, cst(b->c - a->b->c, a->width));
                    if (a->kind == EXor && isC(a->b)) return eq(a->a, cst(b->c ^ a->b->c, a->width));
                    if (a->kind == EConcat) {
                        unsigned lw = a->b->width;
                        return band(eq(a->a, cst(b->c >> lw, a->a->width)), eq(a->b, cst(b->c, lw)));
                    }
                    if (a->kind == EIte) {
                        if (isC(a->b)) return a->b->c == b->c ? bor(a->a, eq(a->d, b)) : band(bnot(a->a), eq(a->d, b));
                        if (isC(a->d)) return a->d->c == b->c ? bor(bnot(a->a), eq(a->b, b)) : band(a->a, eq(a->b, b));
                    }
                }
                if (a->kind == EZExt && b->kind == EZExt && a->a->width == b->a->width) return eq(a->a, b->a);
                if (a->kind == ESExt && b->kind == ESExt && a->a->width == b->a->width) return eq(a->a, b->a);
                break;
            case EUlt: case EUle:
                if (a == b) return k == EUle ? T : F;
                if (isC(b, 0) && k == EUlt) return F;
                if (isC(a, 0) && k == EUle) return T;
                if (isC(b, 1) && k == EUlt) return eq(a, cst(0, a->width));
                if (isC(b, m) && k == EUle) return T;
                if (isC(a, m) && k == EUlt) return F;
                if (a->kind == EZExt && isC(b)) {
                    unsigned n = a->a->width;
                    if (b->c > maskw(n)) return T;
                    return bin(k, a->a, cst(b->c, n));
                }
                if (b->kind == EZExt && isC(a)) {
                    unsigned n = b->a->width;
                    if (a->c > maskw(n)) return F;
                    return bin(k, cst(a->c, n), b->a);
                }
                if (a->kind == EZExt && b->kind == EZExt && a->a->width == b->a->width) return bin(k, a->a, b->a);
                break;
            case ESlt: case ESle: {
                if (a == b) return k == ESle ? T : F;
                EK uk = k == ESlt ? EUlt : EUle;
                bool an = a->kind == EZExt || (isC(a) && !(a->c >> (a->width - 1)));
                bool bn = b->kind == EZExt || (isC(b) && !(b->c >> (b->width - 1)));
                if (an && bn) return bin(uk, a, b);
                if (a->kind == EZExt && isC(b)) return F; // b negative
                if (b->kind == EZExt && isC(a)) return T; // a negative
                if (a->kind == ESExt && isC(b)) {
                    unsigned n = a->a->width;
                    i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1, v = sextw(b->c, b->width);
                    if (v > hi) return T;
                    if (v < lo) return F;
                    return bin(k, a->a, cst((u128)v, n));
                }
                if (b->kind == ESExt && isC(a)) {
                    unsigned n = b->a->width;
                    i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1, v = sextw(a->c, a->width);
                    if (v > hi) return F;
                    if (v < lo) return T;
                    return bin(k, cst((u128)v, n), b->a);
                }
                if (a->kind == ESExt && b->kind == ESExt && a->a->width == b->a->width) return bin(k, a->a, b->a);
                break;
            }
            default: break;
        }
        if (comm && !isC(b) && b->id < a->id) std::swap(a, b);
        return raw(k, w, 0, a, b);
    }
    Expr* un(EK k, unsigned w, Expr* a) {
        if (isC(a)) return cst(applyC(k, w, a->width, 0, a->c, 0, 0), w);
        return raw(k, w, 0, a);
    }
    Expr* ite(Expr* c, Expr* x, Expr* y) {
        if (isC(c)) return c->c ? x : y;
        if (x == y) return x;
        if (c->kind == EXor && isC(c->b, 1)) return ite(c->a, y, x);
        if (x->width == 1) {
            if (isC(x, 1) && isC(y, 0)) return c;
            if (isC(x, 0) && isC(y, 1)) return bnot(c);
            if (isC(x, 1)) return bor(c, y);
            if (isC(x, 0)) return band(bnot(c), y);
            if (isC(y, 0)) return band(c, x);
            if (isC(y, 1)) return bor(bnot(c), x);
        }
        if (x->kind == EIte && x->a == c) x = x->b;
        if (y->kind == EIte && y->a == c) y = y->d;
        if (x == y) return x;
        if (y->kind == EIte && y->b == x) return ite(bor(c, y->a), x, y->d);
        return raw(EIte, x->width, 0, c, x, y);
    }
    Expr* extract(Expr* e, unsigned lo, unsigned w) {
        if (lo == 0 && w == e->width) return e;
        if (isC(e)) return cst(e->c >> lo, w);
        switch (e->kind) {
            case EExtract: return extract(e->a, lo + (unsigned)e->c, w);
            case EConcat: {
                unsigned lw = e->b->width;
                if (lo >= lw) return extract(e->a, lo - lw, w);
                if (lo + w <= lw) return extract(e->b, lo, w);
                return concat(extract(e->a, 0, lo + w - lw), extract(e->b, lo, lw - lo));
            }
            case EZExt: {
                unsigned n = e->a->width;
                if (lo >= n) return cst(0, w);
                if (lo + w <= n) return extract(e->a, lo, w);
                return zext(extract(e->a, lo, n - lo), w);
            }
            case ESExt: {
                unsigned n = e->a->width;
                if (lo + w <= n) return extract(e->a, lo, w);
                if (lo == 0) return sext(e->a, w);
                break;
            }
            case EIte:
                if (isC(e->b) || isC(e->d)) return ite(e->a, extract(e->b, lo, w), extract(e->d, lo, w));
                break;
            case EAnd: case EOr: case EXor:
                if (isC(e->b)) return bin(e->kind, extract(e->a, lo, w), extract(e->b, lo, w));
                break;
            case EAdd: case EMul: case ESub:
                if (lo == 0 && (isC(e->b) || e->a->kind == EZExt || e->a->kind == ESExt)) return bin(e->kind, extract(e->a, 0, w), extract(e->b, 0, w));
                break;
            default: break;
        }
        return raw(EExtract, w, lo, e);
    }
    Expr* concat(Expr* hi, Expr* lo) {
        unsigned w = hi->width + lo->width;
        if (isC(hi) && isC(lo)) return cst((hi->c << lo->width) | lo->c, w);
        if (isC(hi, 0)) return zext(lo, w);
        if (hi->kind == EExtract && lo->kind == EExtract && hi->a == lo->a && (unsigned)hi->c == (unsigned)lo->c + lo->width)
            return extract(hi->a, (unsigned)lo->c, w);
        if (hi->kind == EExtract && hi->a == lo && (unsigned)hi->c == lo->width && false) return nullptr;
        // zext(x) split into bytes and re-joined
        if (hi->kind == EExtract && lo->kind == EConcat) {
            Expr* lh = lo->a; // try merging with the high part of lo
            if (lh->kind == EExtract && lh->a == hi->a && (unsigned)hi->c == (unsigned)lh->c + lh->width)
                return concat(extract(hi->a, (unsigned)lh->c, hi->width + lh->width), lo->b);
        }
        if (hi->kind == EIte && lo->kind == EIte && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->d, lo->d));
        if (hi->kind == EIte && isC(hi->b) && isC(hi->d) && isC(lo)) return ite(hi->a, concat(hi->b, lo), concat(hi->d, lo));
        return raw(EConcat, w, 0, hi, lo);
    }
    Expr* zext(Expr* e, unsigned w) {
        if (w == e->width) return e;
        if (isC(e)) return cst(e->c, w);
        if (e->kind == EZExt) return zext(e->a, w);
        if (e->kind == EIte && isC(e->b) && isC(e->d)) return ite(e->a, zext(e->b, w), zext(e->d, w));
        return raw(EZExt, w, 0, e);
    }
    Expr* sext(Expr* e, unsigned w) {
        if (w == e->width) return e;
        if (isC(e)) return cst((u128)sextw(e->c, e->width), w);
        if (e->kind == EZExt) return zext(e->a, w);
        if (e->kind == ESExt) return sext(e->a, w);
        if (e->kind == EIte && isC(e->b) && isC(e->d)) return ite(e->a, sext(e->b, w), sext(e->d, w));
        return raw(ESExt, w, 0, e);
    }
    unsigned ctz(Expr* e) { // known trailing zero bits
        switch (e->kind) {
            case EConst: return e->c == 0 ? e->width : ((u64)e->c ? std::countr_zero((u64)e->c) : 64);
            case EConcat: { unsigned t = ctz(e->b); return t < e->b->width ? t : t + ctz(e->a); }
            case EAdd: case ESub: case EOr: case EXor: return std::min(ctz(e->a), ctz(e->b));
            case EMul: return std::min<unsigned>(e->width, ctz(e->a) + ctz(e->b));
            case EAnd: return std::max(ctz(e->a), ctz(e->b));
            case EIte: return std::min(ctz(e->b), ctz(e->d));
            case EZExt: case ESExt: { unsigned t = ctz(e->a); return t; }
            default: return 0;
        }
    }

    using Model = std::vector<u128>; // indexed by variable
    u128 evalRec(Expr* e, Model const& m) {
        if (e->kind == EConst) return e->c;
        if (e->evalEpoch == epoch) return e->evalVal;
        u128 r;
        switch (e->kind) {
            case EVar: r = (size_t)e->c < m.size() ? m[(size_t)e->c] : 0; break;
            case EIte: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
            case EConcat: r = (evalRec(e->a, m) << e->b->width) | evalRec(e->b, m); break;
            default: {
                u128 a = evalRec(e->a, m), b = e->b ? evalRec(e->b, m) : 0;
                r = applyC(e->kind, e->width, e->a->width, e->c, a, b, 0);
            }
        }
        e->evalEpoch = epoch; e->evalVal = r;
        return r;
    }
    u128 eval(Expr* e, Model const& m) { ++epoch; return evalRec(e, m); }

    // ---- Z3 ----
    Z3_context z = nullptr;
    void initZ3() {
        Z3_config cfg = Z3_mk_config();
        z = Z3_mk_context_rc(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) {
            fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); });
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
    Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(z) : Z3_mk_fpa_sort_32(z); }
    Z3_ast toFp(Z3_ast bv, unsigned w) { return keep(Z3_mk_fpa_to_fp_bv(z, bv, fps(w))); }
    Z3_ast b2bv(Z3_ast b) {
        Z3_ast one = keep(Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1))), zero = keep(Z3_mk_unsigned_int64(z, 0, Z3_mk_bv_sort(z, 1)));
        return Z3_mk_ite(z, keep(b), one, zero);
    }
    Z3_ast asBool(Expr* e) { // e has width 1
        if (!e->bast) e->bast = asBool1(e);
        return e->bast;
    }
    Z3_ast asBool1(Expr* e) {
        switch (e->kind) {
            case EConst: return keep(e->c ? Z3_mk_true(z) : Z3_mk_false(z));
            case EEq: return e->a->width == 1 ? keep(Z3_mk_iff(z, asBool(e->a), asBool(e->b))) : keep(Z3_mk_eq(z, conv(e->a), conv(e->b)));
            case EUlt: return keep(Z3_mk_bvult(z, conv(e->a), conv(e->b)));
            case EUle: return keep(Z3_mk_bvule(z, conv(e->a), conv(e->b)));
            case ESlt: return keep(Z3_mk_bvslt(z, conv(e->a), conv(e->b)));
            case ESle: return keep(Z3_mk_bvsle(z, conv(e->a), conv(e->b)));
            case EAnd: { Z3_ast x[2] = {asBool(e->a), asBool(e->b)}; return keep(Z3_mk_and(z, 2, x)); }
            case EOr: { Z3_ast x[2] = {asBool(e->a), asBool(e->b)}; return keep(Z3_mk_or(z, 2, x)); }
            case EXor:
                if (isC(e->b, 1)) return keep(Z3_mk_not(z, asBool(e->a)));
                return keep(Z3_mk_xor(z, asBool(e->a), asBool(e->b)));
            case EIte: return keep(Z3_mk_ite(z, asBool(e->a), asBool(e->b), asBool(e->d)));
            case EFOeq: return keep(Z3_mk_fpa_eq(z, toFp(conv(e->a), e->a->width), toFp(conv(e->b), e->a->width)));
            case EFOlt: return keep(Z3_mk_fpa_lt(z, toFp(conv(e->a), e->a->width), toFp(conv(e->b), e->a->width)));
            case EFOle: return keep(Z3_mk_fpa_leq(z, toFp(conv(e->a), e->a->width), toFp(conv(e->b), e->a->width)));
            case EFUno: { Z3_ast x[2] = {keep(Z3_mk_fpa_is_nan(z, toFp(conv(e->a), e->a->width))), keep(Z3_mk_fpa_is_nan(z, toFp(conv(e->b), e->a->width)))}; return keep(Z3_mk_or(z, 2, x)); }
            default: return keep(Z3_mk_eq(z, conv(e), keep(Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)))));
        }
    }
    Z3_ast bvc(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(z, (u64)v, Z3_mk_bv_sort(z, w));
        Z3_ast hi = keep(Z3_mk_unsigned_int64(z, (u64)(v >> 64), Z3_mk_bv_sort(z, w - 64)));
        Z3_ast lo = keep(Z3_mk_unsigned_int64(z, (u64)v, Z3_mk_bv_sort(z, 64)));
        return Z3_mk_concat(z, hi, lo);
    }
    Z3_ast conv(Expr* e) {
        if (e->ast) return e->ast;
        Z3_ast r = nullptr;
        auto A = [&] { return conv(e->a); };
        auto B = [&] { return conv(e->b); };
        auto rne = [&] { return keep(Z3_mk_fpa_rne(z)); };
        auto fp = [&](Expr* x) { return toFp(conv(x), x->width); };
        auto bv = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(z, keep(f)); };
        switch (e->kind) {
            case EConst: r = bvc(e->c, e->width); break;
            case EVar: {
                std::string n = "v" + std::to_string((u32)e->c);
                r = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), Z3_mk_bv_sort(z, e->width));
                break;
            }
            case EAdd: r = Z3_mk_bvadd(z, A(), B()); break;
            case ESub: r = Z3_mk_bvsub(z, A(), B()); break;
            case EMul: r = Z3_mk_bvmul(z, A(), B()); break;
            case EUDiv: r = Z3_mk_bvudiv(z, A(), B()); break;
            case ESDiv: r = Z3_mk_bvsdiv(z, A(), B()); break;
            case EURem: r = Z3_mk_bvurem(z, A(), B()); break;
            case ESRem: r = Z3_mk_bvsrem(z, A(), B()); break;
            case EAnd: if (e->width == 1) { r = b2bv(asBool(e)); } else r = Z3_mk_bvand(z, A(), B()); break;
            case EOr: if (e->width == 1) { r = b2bv(asBool(e)); } else r = Z3_mk_bvor(z, A(), B()); break;
            case EXor: if (e->width == 1) { r = b2bv(asBool(e)); } else r = Z3_mk_bvxor(z, A(), B()); break;
            case EShl: r = Z3_mk_bvshl(z, A(), B()); break;
            case ELShr: r = Z3_mk_bvlshr(z, A(), B()); break;
            case EAShr: r = Z3_mk_bvashr(z, A(), B()); break;
            case EEq: case EUlt: case EUle: case ESlt: case ESle: case EFOeq: case EFOlt: case EFOle: case EFUno:
                r = b2bv(asBool(e)); break;
            case EIte: r = Z3_mk_ite(z, asBool(e->a), B(), conv(e->d)); break;
            case EConcat: r = Z3_mk_concat(z, A(), B()); break;
            case EExtract: r = Z3_mk_extract(z, (unsigned)e->c + e->width - 1, (unsigned)e->c, A()); break;
            case EZExt: r = Z3_mk_zero_ext(z, e->width - e->a->width, A()); break;
            case ESExt: r = Z3_mk_sign_ext(z, e->width - e->a->width, A()); break;
            case EFAdd: r = bv(Z3_mk_fpa_add(z, rne(), fp(e->a), fp(e->b))); break;
            case EFSub: r = bv(Z3_mk_fpa_sub(z, rne(), fp(e->a), fp(e->b))); break;
            case EFMul: r = bv(Z3_mk_fpa_mul(z, rne(), fp(e->a), fp(e->b))); break;
            case EFDiv: r = bv(Z3_mk_fpa_div(z, rne(), fp(e->a), fp(e->b))); break;
            case EFSqrt: r = bv(Z3_mk_fpa_sqrt(z, rne(), fp(e->a))); break;
            case EFFloor: r = bv(Z3_mk_fpa_round_to_integral(z, keep(Z3_mk_fpa_rtn(z)), fp(e->a))); break;
            case EFCeil: r = bv(Z3_mk_fpa_round_to_integral(z, keep(Z3_mk_fpa_rtp(z)), fp(e->a))); break;
            case EFTruncI: r = bv(Z3_mk_fpa_round_to_integral(z, keep(Z3_mk_fpa_rtz(z)), fp(e->a))); break;
            case EFRoundE: r = bv(Z3_mk_fpa_round_to_integral(z, rne(), fp(e->a))); break;
            case ESIToFP: r = bv(Z3_mk_fpa_to_fp_signed(z, rne(), A(), fps(e->width))); break;
            case EUIToFP: r = bv(Z3_mk_fpa_to_fp_unsigned(z, rne(), A(), fps(e->width))); break;
            case EFPToSI: r = Z3_mk_fpa_to_sbv(z, keep(Z3_mk_fpa_rtz(z)), fp(e->a), e->width); break;
            case EFPToUI: r = Z3_mk_fpa_to_ubv(z, keep(Z3_mk_fpa_rtz(z)), fp(e->a), e->width); break;
            case EFPExt: r = bv(Z3_mk_fpa_to_fp_float(z, rne(), fp(e->a), fps(64))); break;
            case EFPTrunc: r = bv(Z3_mk_fpa_to_fp_float(z, rne(), fp(e->a), fps(32))); break;
        }
        e->ast = keep(r);
        return r;
    }
    // textual dump for debugging
    std::string str(Expr* e, int depth = 6) {
        static const char* n[] = {"c", "v", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "cat", "ext", "zx", "sx", "f+", "f-", "f*", "f/", "f==", "f<", "f<=", "funo", "sqrt", "si2f", "ui2f", "f2si", "f2ui", "fext", "ftr", "floor", "ceil", "trunc", "round"};
        if (e->kind == EConst) return std::to_string((i64)(u64)e->c);
        if (e->kind == EVar) return vars[(u32)e->c].name;
        if (depth == 0) return "...";
        std::string s = std::string("(") + n[e->kind];
        if (e->kind == EExtract) s += "@" + std::to_string((u32)e->c) + ":" + std::to_string(e->width);
        for (Expr* x : {e->a, e->b, e->d}) if (x) s += " " + str(x, depth - 1);
        return s + ")";
    }
};
