// Values survive their JSON form, and compact JSON text says what the JSON says.
#include <nlohmann/json.hpp>
#include <hstd/stdlib/IntSet.hpp>
#include <hstd/stdlib/IntSetSerde.hpp>
#include <hstd/stdlib/Json.hpp>
#include <hstd/stdlib/JsonSerde.hpp>
#include <hstd/stdlib/Map.hpp>
#include <hstd/stdlib/MapSerde.hpp>
#include <hstd/stdlib/OptSerde.hpp>
#include <hstd/stdlib/Set.hpp>
#include <hstd/stdlib/SetSerde.hpp>
#include <hstd/stdlib/Variant.hpp>
#include <hstd/stdlib/VariantSerde.hpp>
#include <symx.hpp>

using namespace hstd;

enum class Colour : unsigned short { Red, Green, Blue };
BOOST_DESCRIBE_ENUM(Colour, Red, Green, Blue);

struct Base {
    int number = 7;
    DESC_FIELDS(Base, (number));
};
struct Record : Base {
    Str              text;
    Opt<int>         maybe;
    Vec<int>         list;
    Colour           colour = Colour::Green;
    Pair<bool, int>  pair{};
    BOOST_DESCRIBE_CLASS(Record, (Base), (text, maybe, list, colour, pair), (), ());
};
struct Left {
    int value = 0;
    DESC_FIELDS(Left, (value));
};
struct Right {
    bool value = false;
    DESC_FIELDS(Right, (value));
};
struct Choice {
    SUB_VARIANTS(Kind, Data, data, getKind, Left, Right);
    Data data;
    DESC_FIELDS(Choice, (data));
};

template <typename T>
static T again(T const& v) {
    return from_json_eval<T>(to_json_eval<T>(v));
}

extern "C" void scalars() {
    int i = sx::i32("i");
    SX_CHECK(again<int>(i) == i, "int");
    unsigned u = sx::u32("u");
    SX_CHECK(again<unsigned>(u) == u, "unsigned");
    uint8_t b = sx::u8("b");
    SX_CHECK(again<uint8_t>(b) == b, "byte");
    unsigned long l = sx::u64("l");
    SX_CHECK(again<unsigned long>(l) == l, "unsigned long");
    unsigned long long ll = sx::u64("ll");
    SX_CHECK(again<unsigned long long>(ll) == ll, "unsigned long long");
    bool o = sx::boolean("o");
    SX_CHECK(again<bool>(o) == o, "bool");
    double d = (double)sx::i32("d") / 8;
    SX_CHECK(again<double>(d) == d, "double");
    float f = (float)sx::range("f", -10000, 10000) / 4;
    SX_CHECK(again<float>(f) == f, "float");
    std::string s = sx::text("s", 0, 3);
    SX_CHECK(again<std::string>(s) == s, "text");
    SX_CHECK(again<Str>(Str(s)) == s, "text");
    SX_REACH("end");
}

extern "C" void containers() {
    int      a = sx::i32("a"), b = sx::i32("b");
    int      n = sx::pick("n", 0, 2);
    Vec<int> v;
    std::vector<int> w;
    for (int i = 0; i < n; ++i) { v.push_back(i == 0 ? a : b), w.push_back(i == 0 ? a : b); }
    SX_CHECK(again<Vec<int>>(v) == v && again<std::vector<int>>(w) == w, "lists");
    Opt<int> o;
    if (n > 0) { o = a; }
    SX_CHECK(again<Opt<int>>(o) == o, "optional values");
    std::unique_ptr<int> up = n > 0 ? std::make_unique<int>(a) : nullptr;
    auto                 u2 = again<std::unique_ptr<int>>(std::move(up));
    SX_CHECK(n > 0 ? u2 != nullptr && *u2 == a : u2 == nullptr, "owned values");
    std::shared_ptr<int> sp = n > 0 ? std::make_shared<int>(a) : nullptr;
    auto                 s2 = again<std::shared_ptr<int>>(sp);
    SX_CHECK(n > 0 ? s2 != nullptr && *s2 == a && s2 != sp : s2 == nullptr, "shared values");
    Pair<int, bool> p{a, b > 0};
    SX_CHECK(again(p) == p, "pairs");
    if (a <= b) {
        Slice<int> s{a, b};
        auto       t = again<Slice<int>>(s);
        SX_CHECK(t.first == a && t.last == b, "slices");
    }
    HSlice<int, int> h{a, b};
    auto             h2 = again<HSlice<int, int>>(h);
    SX_CHECK(h2.first == a && h2.last == b, "open slices");
    Vec<Opt<Pair<int, bool>>> deep;
    for (int i = 0; i < n; ++i) { deep.push_back(i == 0 ? Opt<Pair<int, bool>>{} : Opt<Pair<int, bool>>{p}); }
    SX_CHECK(again(deep) == deep, "containers in containers");
    SX_REACH("end");
}

extern "C" void keyed() {
    int a = sx::pick("a", 0, 3), b = sx::pick("b", 0, 3), x = sx::i32("x"), y = sx::i32("y");
    UnorderedMap<int, int>       m;
    std::unordered_map<int, int> m2;
    UnorderedSet<int>            s;
    IntSet<uint8_t>              is;
    m.insert_or_assign(a, x), m.insert_or_assign(b, y);
    m2[a] = x, m2[b] = y;
    s.incl(a), s.incl(b);
    is.incl((uint8_t)a), is.incl((uint8_t)b);
    SX_CHECK(again(m) == m && again(m2) == m2, "maps");
    SX_CHECK(again(s) == s, "sets");
    auto is2 = again(is);
    SX_CHECK(is2.contains((uint8_t)a) && is2.contains((uint8_t)b) && is2.size() == is.size(), "integer sets");
    std::unordered_map<std::string, int> m3;
    m3[std::string((size_t)a, 'k')] = x, m3[std::string((size_t)b, 'k')] = y;
    SX_CHECK(again(m3) == m3, "maps of names");
    SX_REACH("end");
}

extern "C" void records() {
    Record r;
    r.number = sx::i32("number");
    r.text   = sx::text("text", 0, 2);
    if (sx::boolean("has")) { r.maybe = sx::i32("maybe"); }
    int n = sx::pick("n", 0, 2);
    for (int i = 0; i < n; ++i) { r.list.push_back(sx::i32("item")); }
    r.colour = (Colour)sx::pick("colour", 0, 2);
    r.pair   = {sx::boolean("first"), sx::i32("second")};
    Record t = again(r);
    SX_CHECK(t.number == r.number, "field of the base");
    SX_CHECK(t.text == r.text && t.maybe == r.maybe && t.list == r.list && t.colour == r.colour && t.pair == r.pair, "own fields");
    // What is not mentioned keeps its default.
    json j = to_json_eval(r);
    j.erase("number"), j.erase("colour");
    Record d = from_json_eval<Record>(j);
    SX_CHECK(d.number == 7 && d.colour == Colour::Green && d.list == r.list, "fields left out");
    bool thrown = false;
    try {
        (void)from_json_eval<Colour>(json("Purple"));
    } catch (json::exception const&) { thrown = true; }
    SX_CHECK(thrown, "unknown names of values are refused");
    SX_REACH("end");
}

extern "C" void variants() {
    using V = std::variant<int, bool, Str>;
    V v;
    switch (sx::pick("held", 0, 2)) {
        case 0: v = sx::i32("i"); break;
        case 1: v = sx::boolean("b"); break;
        default: v = Str(sx::text("s", 0, 2));
    }
    V w = again(v);
    SX_CHECK(w.index() == v.index(), "the same alternative is held");
    SX_CHECK(w == v, "with the same value");
    Choice c;
    if (sx::boolean("left")) {
        c.data = Left{sx::i32("l")};
    } else {
        c.data = Right{sx::boolean("r")};
    }
    json   j = to_json_eval(c);
    Choice e = from_json_eval<Choice>(j);
    SX_CHECK(e.getKind() == c.getKind() && e.isLeft() == c.isLeft() && e.isRight() == c.isRight(), "the same choice");
    SX_CHECK(c.isLeft() ? e.getLeft().value == c.getLeft().value : e.getRight().value == c.getRight().value, "with the same value");
    SX_CHECK(j["Kind"] == (c.isLeft() ? "Left" : "Right"), "the choice is named");
    bool thrown = false;
    try {
        if (c.isLeft()) {
            (void)c.getRight();
        } else {
            (void)c.getLeft();
        }
    } catch (bad_variant_access const&) { thrown = true; }
    SX_CHECK(thrown, "the other choice is refused");
    SX_REACH("end");
}

#ifdef TIER_THOROUGH
static const int NAME = 2;
#else
static const int NAME = 1;
#endif
static std::string name() { return sx::word("name", 1, NAME, "a\"\\\n"); }
static json        leaf(bool all) {
    switch (sx::pick("leaf", 0, all ? 5 : 1)) {
        case 0: return json();
        case 1: return sx::boolean("object") ? json::object() : json::array();
        case 2: return json(sx::boolean("bool"));
        case 3: return json(sx::range("num", -12, 12));
        case 4: return json(name());
        default: return json("a long text that never fits in the width");
    }
}
static json value(int depth, bool all) {
    int kind = sx::pick("kind", 0, depth == 0 ? 0 : 2);
    if (kind == 0) { return leaf(all); }
    json j = kind == 1 ? json::array() : json::object();
    int  n = sx::pick("n", 1, 2);
    for (int i = 0; i < n; ++i) {
        json sub = i == 0 ? value(depth - 1, all) : json("bb");
        if (kind == 1) {
            j.push_back(sub);
        } else {
            j[i == 0 ? name() : std::string("zz")] = sub;
        }
    }
    return j;
}
static void compact(int depth, bool all) {
    json              j = value(depth, all);
    JsonFormatOptions o;
    o.width            = sx::pick("width", 0, 2) * 10;
    o.indent           = sx::pick("indent", 0, 1) * 2;
    o.stableFieldOrder = sx::boolean("stable");
    std::string text   = to_compact_json(j, o);
    SX_CHECK(json::parse(text) == j, "the text says what the JSON says");
    SX_REACH("end");
}
extern "C" void compact_flat() { compact(1, true); }
extern "C" void compact_deep() { compact(2, false); }

static bool has(json const& j, std::string const& key) {
    if (j.is_object()) {
        for (auto const& [k, v] : j.items()) {
            if (k == key || has(v, key)) { return true; }
        }
    } else if (j.is_array()) {
        for (auto const& v : j) {
            if (has(v, key)) { return true; }
        }
    }
    return false;
}
static json without(json const& j, std::string const& a, std::string const& b) {
    if (j.is_object()) {
        json r = json::object();
        for (auto const& [k, v] : j.items()) {
            if (k != a && k != b) { r[k] = without(v, a, b); }
        }
        return r;
    } else if (j.is_array()) {
        json r = json::array();
        for (auto const& v : j) { r.push_back(without(v, a, b)); }
        return r;
    } else {
        return j;
    }
}
extern "C" void filter() {
    auto word = [](const char* n) { return sx::word(n, 1, 1, "abc"); };
    json leaf = json::object({{word("k3"), 2}});
    if (sx::pick("nested", 0, 1)) { leaf = json::array({leaf, json::array({leaf})}); }
    json in   = json::object({{word("k1"), 1}, {word("k2"), json::array({leaf, 3})}});
    json out  = json::object({{word("k4"), in}, {word("k5"), 4}});
    std::string a = word("r1"), b = word("r2");
    json        expected = without(out, a, b);
    if (sx::pick("listed", 0, 1)) {
        out      = json::array({out, 5, out});
        expected = json::array({expected, 5, expected});
    }
    filterFields(out, {a, b});
    SX_CHECK(!has(out, a) && !has(out, b), "no such field is left");
    SX_CHECK(out == expected, "everything else is left");
    SX_REACH("end");
}
