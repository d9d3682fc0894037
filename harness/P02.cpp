#include "symx.hpp"
#include <hstd/stdlib/DynVariant.hpp>
#include <string>

static int alive = 0;
struct Base {
    enum struct Kind { A, B, C };
    int payload = 0;
    Base() { ++alive; }
    Base(int p) : payload(p) { ++alive; }
    Base(Base const& o) : payload(o.payload) { ++alive; }
    virtual ~Base() { --alive; }
    virtual Kind get_kind() const = 0;
};
struct A : Base {
    static constexpr Kind staticKind = Kind::A;
    using Base::Base;
    Kind get_kind() const override { return staticKind; }
};
struct B : Base {
    static constexpr Kind staticKind = Kind::B;
    long                  extra      = 0;
    B() = default;
    B(int p, long e) : Base(p), extra(e) {}
    Kind get_kind() const override { return staticKind; }
};
struct Pad { // base at a non-zero offset
    long pad = 77;
    virtual ~Pad() = default;
};
struct C : Pad, Base {
    static constexpr Kind staticKind = Kind::C;
    C() = default;
    C(int p) : Base(p) {}
    Kind get_kind() const override { return staticKind; }
};
DEFINE_DYN_VARIANT_TAG(Tag, Base, Base::Kind, ptr->get_kind(), A, B, C);
using V = hstd::dyn_variant<Tag>;

struct Abs { // reference model: which alternative (-1 empty) and its payload
    int  alt = -1;
    int  pay = 0;
    long ext = 0;
};
struct Vis {
    int calls[3] = {0, 0, 0};
    int operator()(std::shared_ptr<A> const& p) { ++calls[0]; return p ? p->payload : -1; }
    int operator()(std::shared_ptr<B> const& p) { ++calls[1]; return p ? p->payload : -1; }
    int operator()(std::shared_ptr<C> const& p) { ++calls[2]; return p ? p->payload : -1; }
};
template <class T>
static void access(V& v, Abs const& m, int alt) {
    bool     is = m.alt == alt;
    V const& cv = v;
    T*       p1 = v.template get_if<T>();
    T*       p2 = hstd::get_if<T>(&v);
    T const* p3 = hstd::get_if<T>(&cv);
    SX_CHECK((p1 != nullptr) == is, "member get_if succeeds exactly for the held alternative");
    SX_CHECK((p2 != nullptr) == is, "get_if succeeds exactly for the held alternative");
    SX_CHECK((p3 != nullptr) == is, "const get_if succeeds exactly for the held alternative");
    SX_CHECK(hstd::holds_alternative<T>(cv) == is, "holds_alternative agrees");
    try {
        T& r = hstd::get<T>(v);
        SX_CHECK(is, "get throws for another alternative");
        SX_CHECK(&r == p2 && &r == p1 && p3 == p2, "all accessors give the same object");
        SX_CHECK(r.payload == m.pay, "payload");
        SX_CHECK(static_cast<Base*>(&r) == v.get(), "accessor points at the held object");
    } catch (std::bad_variant_access const&) { SX_CHECK(!is, "get returns the held alternative"); SX_REACH("refused"); }
    try {
        T const& r = hstd::get<T>(cv);
        SX_CHECK(is, "const get throws for another alternative");
        SX_CHECK(&r == p3, "const get gives the same object");
    } catch (std::bad_variant_access const&) { SX_CHECK(!is, "const get returns the held alternative"); }
}
static void observe(V& v, Abs const& m) {
    SX_CHECK(static_cast<bool>(v) == (m.alt >= 0), "bool conversion");
    SX_CHECK(v.valueless_by_exception() == (m.alt < 0), "valueless");
    SX_CHECK((v.get() == nullptr) == (m.alt < 0), "raw pointer");
    access<A>(v, m, 0);
    access<B>(v, m, 1);
    access<C>(v, m, 2);
    Vis vis;
    try {
        int r = hstd::dyn_visit(vis, v);
        SX_CHECK(m.alt >= 0, "visiting an empty variant throws");
        SX_CHECK(r == m.pay, "visitor sees the held object and its result is returned");
        SX_CHECK(vis.calls[0] + vis.calls[1] + vis.calls[2] == 1 && vis.calls[m.alt] == 1, "exactly one visitor overload runs");
        SX_REACH("visited");
    } catch (std::bad_variant_access const&) {
        SX_CHECK(m.alt < 0, "visiting a non-empty variant succeeds");
        SX_CHECK(vis.calls[0] + vis.calls[1] + vis.calls[2] == 0, "no overload runs on an empty variant");
        SX_REACH("visit-empty");
    }
    if (m.alt >= 0) {
        SX_CHECK(static_cast<int>(v.kind()) == m.alt, "kind");
        SX_CHECK(v.index() == m.alt, "index");
    }
    if (m.alt == 1) { SX_CHECK(hstd::get<B>(v).extra == m.ext, "all constructor arguments forwarded"); }
}
static V make(Abs& m, int alt) {
    m.alt = alt;
    m.pay = 0;
    if (alt < 0) return V{};
    m.pay = sx::i32("payload");
    if (alt == 0) return V::make<A>(m.pay);
    if (alt == 1) { m.ext = sx::i64("extra"); return V::make<B>(m.pay, m.ext); }
    return V::make<C>(m.pay);
}
#ifdef TIER_THOROUGH
constexpr int STEPS = 4;
#else
constexpr int STEPS = 3;
#endif
extern "C" void variant_history() {
    {
        V   v[2];
        Abs m[2];
        int share = -1; // m[0] and m[1] refer to one object when set
        for (int s = 0; s < STEPS; ++s) {
            int t  = sx::pick("target", 0, 1);
            int op = sx::pick("op", 0, 6);
            if (op <= 3) { v[t] = make(m[t], op - 1); share = -1; }
            else if (op == 4) { v[t] = v[1 - t]; m[t] = m[1 - t]; share = 1; }
            else if (op == 5) { v[t] = std::move(v[1 - t]); m[t] = m[1 - t]; m[1 - t] = Abs{}; share = -1; }
            else if (m[t].alt >= 0) { // mutation through an accessor is seen by every sharer
                int x = sx::i32("mutated");
                if (m[t].alt == 0) hstd::get<A>(v[t]).payload = x;
                if (m[t].alt == 1) v[t].get_if<B>()->payload = x;
                if (m[t].alt == 2) hstd::get_if<C>(&v[t])->payload = x;
                m[t].pay = x;
                if (share > 0) m[1 - t].pay = x;
            }
        }
        observe(v[0], m[0]);
        observe(v[1], m[1]);
        int expect = (m[0].alt >= 0) + (m[1].alt >= 0) - (share > 0 && m[0].alt >= 0 ? 1 : 0);
        SX_CHECK(alive == expect, "objects live exactly as long as a variant holds them");
    }
    SX_CHECK(alive == 0, "everything is released");
}
extern "C" void variant_from_index() {
    int i = sx::range("index", 0, 2);
    V   v = hstd::from_index(Tag{}, i);
    SX_CHECK(v.index() == i, "from_index creates the requested alternative");
    int pay = sx::i32("payload");
    V   w   = hstd::from_index(Tag{}, i, [pay]<typename T>() { T t; t.payload = pay; return t; });
    Abs m{i, pay, 0};
    observe(w, m);
    SX_REACH("end");
}
extern "C" void variant_null_pointer() {
    V* none = nullptr;
    SX_CHECK(hstd::get_if<A>(none) == nullptr, "get_if of a null variant pointer is null");
    V const* cnone = nullptr;
    SX_CHECK(hstd::get_if<B>(cnone) == nullptr, "const get_if of a null variant pointer is null");
    SX_REACH("end");
}
