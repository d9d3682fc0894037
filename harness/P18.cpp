// Ids name the stored value they were given for, and nothing else.
#include <hstd/stdlib/dod_base_multi.hpp>
#include <symx.hpp>
#include <map>
#include <type_traits>
#include <vector>

using namespace hstd;

namespace {
DECL_ID_TYPE(Plain, PlainId, uint32_t);
DECL_ID_TYPE_MASKED(Masked, MaskedId, uint16_t, 4);
DECL_ID_TYPE_MASKED(Wide, WideId, uint64_t, 16);
struct Plain {
    using id_type = PlainId;
    int  v        = 0;
    bool operator==(Plain const& o) const { return v == o.v; }
};
struct Masked {
    using id_type = MaskedId;
    int  v        = 0;
    bool operator==(Masked const& o) const { return v == o.v; }
};
struct Wide {
    using id_type = WideId;
};
} // namespace
template <>
struct std::hash<Plain> {
    size_t operator()(Plain const& p) const { return (size_t)p.v; }
};
template <>
struct std::hash<Masked> {
    size_t operator()(Masked const& p) const { return (size_t)p.v; }
};

template <typename Id>
static void fields(int mask_bits) {
    using T          = typename Id::id_base_type;
    const int bits   = (int)sizeof(T) * 8;
    const T   high   = mask_bits ? (T)(((T)1 << (bits - mask_bits)) - 1) : (T) ~(T)0;
    T         index  = (T)symx_sym("index", bits);
    T         mask   = mask_bits ? (T)symx_sym("mask", bits) : (T)0;
    symx_assume(index < high);
    symx_assume(mask_bits == 0 || mask < ((T)1 << (mask_bits % bits)));
    Id id = Id::Nil();
    SX_CHECK(id.isNil(), "nil is nil");
    id = mask_bits ? Id(Id::FromMaskedIdx(index, mask)) : Id(Id::FromIndex(index));
    SX_CHECK(!id.isNil(), "an id of an index is not nil");
    SX_CHECK(id.getIndex() == index, "an id gives back its index");
    SX_CHECK(id.getMask() == mask, "an id gives back its mask");
    SX_CHECK(id.getUnmasked() == (T)(index + 1), "unmasked part of an id");
    SX_CHECK(Id::FromValue(id.getValue()) == id, "an id survives as a value");
    SX_CHECK(!(id != Id::FromValue(id.getValue())), "an id does not differ from itself");

    T  index2 = (T)symx_sym("index2", bits);
    T  mask2  = mask_bits ? (T)symx_sym("mask2", bits) : (T)0;
    symx_assume(index2 < high);
    symx_assume(mask_bits == 0 || mask2 < ((T)1 << (mask_bits % bits)));
    Id id2 = mask_bits ? Id(Id::FromMaskedIdx(index2, mask2)) : Id(Id::FromIndex(index2));
    SX_CHECK((id == id2) == (index == index2 && mask == mask2), "equal ids have the same index and mask");
    SX_CHECK((id != id2) == !(id == id2), "different is not equal");
    SX_CHECK((id < id2) == (index < index2), "ids are ordered by index");
    SX_CHECK((id <= id2) == (index <= index2), "ids are ordered by index");
    SX_CHECK(dod::distance(id, id2) == (index < index2 ? (T)(index2 - index) : (T)0), "distance of ids");
    SX_CHECK(std::hash<Id>{}(id) == std::hash<Id>{}(id2) || !(id == id2), "equal ids hash equal");

    Id copy = id;
    copy.setUnmasked((T)(index2 + 1));
    SX_CHECK(copy.getIndex() == index2 && copy.getMask() == mask, "changing the index keeps the mask");
    if (mask_bits) {
        copy = id;
        copy.setMask(mask2);
        SX_CHECK(copy.getIndex() == index && copy.getMask() == mask2, "changing the mask keeps the index");
    }
    copy = id;
    Id& r = ++copy;
    SX_CHECK(&r == &copy, "increment gives the id");
    SX_CHECK(copy.getMask() == mask, "increment keeps the mask");
    SX_CHECK(copy.getUnmasked() == (index + 1 == high ? high : (T)(index + 2)), "increment stops at the last index");
    copy   = id;
    Id old = copy++;
    SX_CHECK(old == id && copy.getMask() == mask && copy.getUnmasked() == (index + 1 == high ? high : (T)(index + 2)),
             "increment afterwards");
    copy = id;
    --copy;
    SX_CHECK(copy.getMask() == mask && copy.getUnmasked() == index, "decrement");
    SX_CHECK(copy.isNil() == (index == 0), "decrement of the first is nil");
    --copy;
    SX_CHECK(copy.getMask() == mask && copy.getUnmasked() == (index == 0 ? (T)0 : (T)(index - 1)), "decrement stops at nil");
    copy = id;
    old  = copy--;
    SX_CHECK(old == id && copy.getMask() == mask && copy.getUnmasked() == index, "decrement afterwards");
    int  by  = sx::i32("by");
    Id   sum = id + by;
    SX_CHECK(sum.getMask() == mask, "adding keeps the mask");
    using W     = std::conditional_t<sizeof(T) == 8, __int128, long long>;
    W     exact = (W)index + 1 + by;
    SX_CHECK((W)sum.getUnmasked() == (exact < 0 ? (W)0 : exact > (W)high ? (W)high : exact), "adding stops at the ends");
    SX_REACH("end");
}
extern "C" void id_plain() { fields<PlainId>(0); }
extern "C" void id_masked() { fields<MaskedId>(4); }
extern "C" void id_wide() { fields<WideId>(16); }

// A mask that does not fit is refused and the id stays as it was.
extern "C" void id_mask_range() {
    uint16_t index = sx::u16("index"), mask = sx::u16("mask");
    symx_assume(index < 0xFFF);
    MaskedId id     = MaskedId::FromValue((uint16_t)(index + 1));
    bool     thrown = false;
    try {
        id.setMask(mask);
    } catch (std::logic_error const&) { thrown = true; }
    SX_CHECK(thrown == (mask >= 16), "masks that do not fit are refused");
    SX_CHECK(id.getIndex() == index, "index is kept");
    SX_CHECK(id.getMask() == (thrown ? 0 : mask), "mask is set or kept");
    SX_REACH("end");
}
extern "C" void id_nil() {
    uint16_t mask = sx::u16("mask");
    symx_assume(mask < 16);
    MaskedId id = MaskedId::Nil();
    id.setMask(mask);
    SX_CHECK(id.isNil(), "a nil id with a mask is nil");
    bool thrown = false;
    try {
        (void)id.getIndex();
    } catch (std::range_error const&) { thrown = true; } catch (std::exception const&) { thrown = true; }
    SX_CHECK(thrown, "a nil id has no index");
    dod::Store<MaskedId, int> st;
    (void)st.add(1);
    SX_CHECK(!st.contains(id), "no store contains nil");
    SX_REACH("end");
}

#ifdef TIER_THOROUGH
static const int OPS = 6;
#else
static const int OPS = 4;
#endif

// Any history of additions and replacements.
extern "C" void store_history() {
    dod::Store<MaskedId, int> st;
    std::vector<int>          model;
    std::vector<MaskedId>     ids;
    for (int i = 0; i < OPS; ++i) {
        int v = sx::i32("v");
        switch (sx::pick("op", 0, 2)) {
            case 0: {
                MaskedId id = st.add(v);
                SX_CHECK(id.getIndex() == model.size() && id.getMask() == 0, "new id");
                model.push_back(v), ids.push_back(id);
                break;
            }
            case 1: {
                uint16_t mask = sx::u16("mask");
                symx_assume(mask < 16);
                MaskedId id = st.add(v, mask);
                SX_CHECK(id.getIndex() == model.size() && id.getMask() == mask, "new id with a mask");
                model.push_back(v), ids.push_back(id);
                break;
            }
            default: {
                int      at = sx::pick("at", 0, (int)model.size());
                MaskedId id = at < (int)ids.size() ? ids[(size_t)at] : MaskedId(MaskedId::FromIndex((uint16_t)at));
                st.insert(id, v);
                if (at == (int)model.size()) {
                    model.push_back(v), ids.push_back(id);
                } else {
                    model[(size_t)at] = v;
                }
            }
        }
    }
    SX_CHECK(st.size() == (int)model.size(), "size");
    SX_CHECK(st.empty() == model.empty(), "empty");
    for (size_t i = 0; i < model.size(); ++i) {
        SX_CHECK(st.contains(ids[i]), "added values are contained");
        SX_CHECK(st.at(ids[i]) == model[i], "an id gives its value");
        SX_CHECK(std::as_const(st).at(ids[i]) == model[i], "an id gives its value");
        SX_CHECK(st.atIndex((int)i) == model[i], "an index gives its value");
    }
    uint16_t probe = sx::u16("probe");
    MaskedId pid   = MaskedId::FromValue(probe);
    SX_CHECK(st.contains(pid) == ((probe & 0xFFF) != 0 && (size_t)(probe & 0xFFF) <= model.size()), "contained ids");
    if (!model.empty()) {
        SX_CHECK(st.at(st.back()) == model.back(), "last value");
        st.at(ids[0]) = 77;
        SX_CHECK(st.atIndex(0) == 77, "values can be changed");
        model[0] = 77;
    }
    size_t n = 0;
    for (auto it : st.pairs()) {
        SX_CHECK(n < model.size() && it.first.getIndex() == n && *it.second == model[n], "pairs in order");
        ++n;
    }
    SX_CHECK(n == model.size(), "all pairs");
    n = 0;
    for (auto it : std::as_const(st).items()) {
        SX_CHECK(n < model.size() && *it == model[n], "items in order");
        ++n;
    }
    SX_CHECK(n == model.size(), "all items");
    SX_REACH("end");
}

// Interned values have one id each.
extern "C" void intern_history() {
    dod::InternStore<PlainId, int> st;
    std::vector<int>               model;
    for (int i = 0; i < OPS; ++i) {
        int v     = sx::pick("v", 0, 2) * 7;
        int known = -1;
        for (size_t k = 0; k < model.size(); ++k) {
            if (model[k] == v) { known = (int)k; }
        }
        SX_CHECK(st.contains(v) == (known != -1), "interned values are contained");
        if (sx::pick("op", 0, 1) == 0) {
            PlainId id = st.add(v);
            SX_CHECK(st.add(v) == id, "adding again gives the same id");
            SX_CHECK(id.getIndex() == (known == -1 ? model.size() : (size_t)known), "known values keep their id");
            if (known == -1) { model.push_back(v); }
        } else {
            int at = sx::pick("at", 0, (int)model.size());
            st.insert(PlainId((uint32_t)at), v);
            if (known == -1) {
                if (at == (int)model.size()) {
                    model.push_back(v);
                } else {
                    model[(size_t)at] = v;
                }
            }
        }
        SX_CHECK(st.size() == (int)model.size() && st.empty() == model.empty(), "size");
        for (size_t k = 0; k < model.size(); ++k) {
            SX_CHECK(st.at(PlainId((uint32_t)k)) == model[k], "an id gives its value");
            SX_CHECK(st.contains(model[k]), "stored values are contained");
            SX_CHECK(st.add(model[k]).getIndex() == k, "a value gives its id");
        }
    }
    SX_REACH("end");
}

// Several kinds of values in one container do not mix.
extern "C" void multi_store() {
    dod::MultiStore<dod::Store<PlainId, Plain>, dod::InternStore<MaskedId, Masked>> st;
    int              v = sx::i32("v"), w = sx::range("w", 0, 3), u = sx::range("u", 0, 3);
    PlainId          a = st.add(Plain{v});
    MaskedId         b = st.add(Masked{w});
    PlainId          c = st.add(Plain{v});
    MaskedId         d = st.add(Masked{u});
    SX_CHECK(a.getIndex() == 0 && c.getIndex() == 1, "plain ids");
    SX_CHECK((b == d) == (w == u), "interned ids");
    SX_CHECK(st.at(a).v == v && st.at(c).v == v, "plain values");
    SX_CHECK(st.at(b).v == w && std::as_const(st).at(d).v == u, "interned values");
    st.insert(a, Plain{w});
    SX_CHECK(st.at(a).v == w && st.at(c).v == v && st.at(b).v == w, "replacing one value");
    SX_REACH("end");
}
