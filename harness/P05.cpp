#include "symx.hpp"
#include <hstd/stdlib/Func.hpp>
#include <hstd/stdlib/Ptrs.hpp>
#include <stdexcept>
#include <variant>

static int  logN;
static int  logV[16];
static void note(int v) {
    if (logN < 16) logV[logN] = v;
    ++logN;
}

// nested scopes with guards; leaving by fall-through, return or exception
static int scopes(int depth, int exitAt, int how, int const* kind, int const* val) {
    if (depth == 3) return 0;
    int id = 10 * (depth + 1);
    if (kind[depth] == 0) {
        hstd::finally g{[id] { note(id); }};
        if (exitAt == depth) { if (how == 1) return 1; if (how == 2) throw std::runtime_error("x"); }
        return scopes(depth + 1, exitAt, how, kind, val);
    } else if (kind[depth] == 1) {
        hstd::finally_std g{[id] { note(id); }};
        if (exitAt == depth) { if (how == 1) return 1; if (how == 2) throw 5; }
        return scopes(depth + 1, exitAt, how, kind, val);
    } else if (kind[depth] == 2) {
        int  v = val[depth];
        auto g = hstd::finally_std::init([](int x) { note(x); }, v);
        v      = -1; // the guard keeps the value it was given
        if (exitAt == depth) { if (how == 1) return 1; if (how == 2) throw 5; }
        return scopes(depth + 1, exitAt, how, kind, val);
    } else {
        auto g = hstd::finally_std::nop();
        if (exitAt == depth) { if (how == 1) return 1; if (how == 2) throw 5; }
        return scopes(depth + 1, exitAt, how, kind, val);
    }
}
extern "C" void guard_scopes() {
    int kind[3], val[3];
    for (int i = 0; i < 3; ++i) { kind[i] = sx::pick("kind", 0, 3); val[i] = sx::i32("val"); }
    int exitAt = sx::pick("exit", 0, 3), how = sx::pick("how", 0, 2);
    logN       = 0;
    int  entered = (how == 0 || exitAt == 3) ? 3 : exitAt + 1;
    bool threw   = how == 2 && exitAt < 3, caught = false;
    try {
        scopes(0, exitAt, how, kind, val);
    } catch (...) { caught = true; }
    SX_CHECK(caught == threw, "leaving exception is not swallowed");
    int n = 0;
    for (int i = entered - 1; i >= 0; --i) {
        if (kind[i] == 3) continue;
        int want = kind[i] == 2 ? val[i] : 10 * (i + 1);
        SX_CHECK(n < logN && logV[n] == want, "guards run in reverse order of entry with their own value");
        ++n;
    }
    SX_CHECK(n == logN, "every guard runs exactly once");
    if (threw) SX_REACH("throw");
    if (how == 1) SX_REACH("return");
    SX_REACH("end");
}
extern "C" void exception_probe() {
    int  k = sx::i32("k");
    bool ran = false;
    bool ok  = hstd::no_exception([&] {
        ran = true;
        if (k == 3) throw std::logic_error("a");
        if (k == 4) throw 7;
        if (k > 100) throw std::bad_alloc();
    });
    SX_CHECK(ran, "the probed action is run");
    SX_CHECK(ok == !(k == 3 || k == 4 || k > 100), "probe reports whether the action threw anything");
    SX_REACH("end");
}
struct Rec {
    int  a, b;
    long c;
    bool even() const { return (a & 1) == 0; }
    long sum() const { return (long)a + c; }
};
extern "C" void accessors() {
    Rec  r{sx::i32("a"), sx::i32("b"), sx::i32("c")}, q{sx::i32("a"), sx::i32("b"), sx::i32("c")};
    auto fa = hstd::get_field_get(&Rec::a);
    auto fb = hstd::get_field_get(&Rec::b);
    auto fc = hstd::get_field_get(&Rec::c);
    auto gs = hstd::get_getter_get(&Rec::sum);
    auto ge = hstd::get_method_filter(&Rec::even);
    SX_CHECK(fa(r) == r.a && fb(r) == r.b && fc(r) == r.c && fa(q) == q.a, "field reader reads the chosen field of the object passed");
    SX_CHECK(gs(r) == r.sum() && gs(q) == q.sum(), "getter reader calls the chosen getter");
    SX_CHECK(ge(r) == r.even() && ge(q) == q.even(), "filter calls the chosen predicate");
    SX_REACH("end");
}
extern "C" void overload_visit() {
    std::variant<int, double, const char*> v;
    int                                    which = sx::pick("which", 0, 2);
    int                                    x     = sx::i32("x");
    if (which == 0) v = x; else if (which == 1) v = 2.5; else v = "t";
    int got = std::visit(hstd::overloaded{[](int i) { return i; }, [](double) { return -7; }, [](const char*) { return -8; }}, v);
    SX_CHECK(got == (which == 0 ? x : which == 1 ? -7 : -8), "the handler of the held type is called");
    SX_REACH("end");
}

static int alive, deletes;
struct Base { int id; Base(int i) : id(i) { ++alive; } Base(Base const& o) : id(o.id) { ++alive; } virtual ~Base() { --alive; } };
struct Left : Base { using Base::Base; };
struct Pad { long p = 1; virtual ~Pad() = default; };
struct Right : Pad, Base { Right(int i) : Base(i) {} };
struct Leaf : Left { using Left::Left; };
struct CountDel {
    int tag = 0;
    template <class X> void operator()(X* p) const { ++deletes; delete p; }
};
template <class To, class D, class Src> static void castOne(std::unique_ptr<Src, D> p, int id, bool fits) {
    Src* raw = p.get();
    {
        auto q = hstd::dynamic_pointer_cast<To, D, Src>(std::move(p));
        SX_CHECK((q != nullptr) == fits, "cast succeeds exactly when the object is of the target type");
        SX_CHECK((p == nullptr) == (fits || raw == nullptr), "source gives up the object exactly when the cast succeeds");
        SX_CHECK((p != nullptr) + (q != nullptr) == (raw != nullptr), "object has exactly one owner");
        if (q) SX_CHECK(q->id == id && dynamic_cast<Src*>(q.get()) == raw, "the same object is handed over");
        else SX_CHECK(p.get() == raw, "a failed cast leaves the source untouched");
        if (raw) SX_CHECK(alive == 1, "object is alive while owned");
    }
    if (fits) SX_CHECK(alive == 0, "new owner destroys the object");
    p.reset();
    SX_CHECK(alive == 0, "no object is leaked");
}
extern "C" void unique_cast() {
    alive = deletes = 0;
    int id  = sx::i32("id");
    int dyn = sx::pick("object", 0, 4);
    int to  = sx::pick("target", 0, 2);
    using BD = std::default_delete<Base>;
    if (sx::boolean("custom")) {
        std::unique_ptr<Base, CountDel> p;
        if (dyn == 0) p.reset(new Base(id)); else if (dyn == 1) p.reset(new Left(id)); else if (dyn == 2) p.reset(new Right(id)); else if (dyn == 3) p.reset(new Leaf(id));
        bool isL = dyn == 1 || dyn == 3, isR = dyn == 2, isLeaf = dyn == 3;
        if (to == 0) castOne<Left>(std::move(p), id, isL); else if (to == 1) castOne<Right>(std::move(p), id, isR); else castOne<Leaf>(std::move(p), id, isLeaf);
        SX_CHECK(deletes == (dyn != 4 ? 1 : 0), "the given deleter destroys the object once");
        SX_REACH("custom");
    } else {
        std::unique_ptr<Base, void (*)(Base*)> p(nullptr, [](Base* x) { ++deletes; delete x; });
        if (dyn == 0) p.reset(new Base(id)); else if (dyn == 1) p.reset(new Left(id)); else if (dyn == 2) p.reset(new Right(id)); else if (dyn == 3) p.reset(new Leaf(id));
        bool isL = dyn == 1 || dyn == 3, isR = dyn == 2, isLeaf = dyn == 3;
        if (to == 0) castOne<Left>(std::move(p), id, isL); else if (to == 1) castOne<Right>(std::move(p), id, isR); else castOne<Leaf>(std::move(p), id, isLeaf);
        SX_CHECK(deletes == (dyn != 4 ? 1 : 0), "the given deleter destroys the object once");
        SX_REACH("pointer");
    }
}
struct Shared : hstd::SharedPtrApi<Shared> {
    int x, y;
    Shared(int a, int b) : x(a), y(b) { ++alive; }
    Shared(Shared const& o) : hstd::SharedPtrApi<Shared>(o), x(o.x), y(o.y) { ++alive; }
    ~Shared() { --alive; }
};
extern "C" void shared_api() {
    alive = 0;
    int x = sx::i32("x"), y = sx::i32("y"), z = sx::i32("z");
    std::weak_ptr<Shared> w;
    {
        auto p = Shared::shared(x, y);
        SX_CHECK(p->x == x && p->y == y && p.use_count() == 1 && alive == 1, "constructed once from the arguments with a single owner");
        Shared const& c = *p;
        auto          q = c.mshared_from_this();
        SX_CHECK(q == p && p.use_count() == 2, "owner obtained from the object shares ownership");
        w = c.mweak_from_this();
        SX_CHECK(w.lock() == p, "weak reference points to the object");
        SX_CHECK(p.use_count() == 2, "weak reference observes without owning");
        auto d = p->clone_this();
        SX_CHECK(d != p && d->x == x && d->y == y && alive == 2, "clone is an equal separate object");
        d->x = z;
        SX_CHECK(p->x == x && d->mshared_from_this() == d, "clone does not share state or identity");
        p.reset();
        SX_CHECK(alive == 2 && !w.expired(), "object lives while an owner exists");
        q.reset();
        SX_CHECK(alive == 1 && w.expired(), "object dies with its last owner");
    }
    SX_CHECK(alive == 0, "nothing is leaked");
    SX_REACH("end");
}
