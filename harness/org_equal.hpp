// Whether two documents are the same in every recorded value.
#pragma once
#include "org_document.hpp"
#include <haxorg/sem/SemOrgFormat.hpp>
#include <boost/describe.hpp>
#include <boost/mp11.hpp>

namespace doc {
template <typename T>
struct is_sem : std::false_type {};
template <typename T>
struct is_sem<SemId<T>> : std::true_type {};
template <typename T>
struct is_opt : std::false_type {};
template <typename T>
struct is_opt<std::optional<T>> : std::true_type {};
template <typename T>
concept Holder = requires(T const& t) { t.index(); t.valueless_by_exception(); };
template <typename T>
concept Table2 = requires(T const& t) { typename T::mapped_type; t.find(std::declval<typename T::key_type>()); };
template <typename T>
concept Listed = requires(T const& t) { t.begin(); t.end(); t.size(); };

#ifdef SHOW_WHERE
inline std::string where;
#endif
bool equalNode(SemId<Org> const& a, SemId<Org> const& b);

template <typename T>
bool equal(T const& a, T const& b);

template <typename T>
bool equalFields(T const& a, T const& b) {
    bool ok = true;
    boost::mp11::mp_for_each<boost::describe::describe_bases<T, boost::describe::mod_any_access>>([&](auto d) {
        using B = typename decltype(d)::type;
        ok      = ok && equalFields<B>(a, b);
    });
    boost::mp11::mp_for_each<boost::describe::describe_members<T, boost::describe::mod_any_access>>([&](auto d) {
        using M = std::remove_cvref_t<decltype(a.*d.pointer)>;
        if constexpr (!std::is_same_v<M, std::string_view>) {
            if (std::string_view(d.name) != "loc") {
                ok = ok && equal<M>(a.*d.pointer, b.*d.pointer);
#ifdef SHOW_WHERE
                if (!ok && where.size() < 300) { where += std::string(d.name) + "<"; }
#endif
            }
        }
    });
    return ok;
}

template <typename T>
bool equal(T const& a, T const& b) {
    if constexpr (is_sem<T>::value) {
        if (a.isNil() || b.isNil()) { return a.isNil() == b.isNil(); }
        return equalNode(a.asOrg(), b.asOrg());
    } else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
        return a == b;
    } else if constexpr (std::is_base_of_v<std::string, T>) {
        return static_cast<std::string const&>(a) == static_cast<std::string const&>(b);
    } else if constexpr (std::is_same_v<T, UserTime>) {
        return a.align == b.align;
    } else if constexpr (is_opt<T>::value) {
        if (!a.has_value() || !b.has_value()) { return a.has_value() == b.has_value(); }
        return equal(*a, *b);
    } else if constexpr (Holder<T>) {
        if (a.index() != b.index()) { return false; }
        bool ok = true;
        std::visit([&]<typename V>(V const& va) { ok = equal<V>(va, std::get<V>(b)); }, a);
        return ok;
    } else if constexpr (Table2<T>) {
        if (a.size() != b.size()) { return false; }
        for (auto const& [k, v] : a) {
            auto it = b.find(k);
            if (it == b.end() || !equal(v, it->second)) { return false; }
        }
        return true;
    } else if constexpr (std::is_same_v<T, Vec<SemId<Org>>>) {
        // Line breaks at the end separate nothing.
        size_t n = a.size(), m = b.size();
        while (n != 0 && is(a.at(n - 1), osk::Newline)) { --n; }
        while (m != 0 && is(b.at(m - 1), osk::Newline)) { --m; }
        if (n != m) { return false; }
        for (size_t i = 0; i < n; ++i) {
            if (!equal(a.at(i), b.at(i))) { return false; }
        }
        return true;
    } else if constexpr (Listed<T>) {
        auto x = a.begin();
        auto y = b.begin();
        for (; x != a.end() && y != b.end(); ++x, ++y) {
            if (!equal(*x, *y)) { return false; }
        }
        return !(x != a.end()) && !(y != b.end());
    } else {
        return equalFields(a, b);
    }
}

inline bool equalNode(SemId<Org> const& a, SemId<Org> const& b) {
    if (a->getKind() != b->getKind()) { return false; }
    switch (a->getKind()) {
#define KIND(K) case osk::K: return equalFields(static_cast<K const&>(*a.value), static_cast<K const&>(*b.value));
        EACH_SEM_ORG_KIND(KIND)
#undef KIND
        default: return false;
    }
}
} // namespace doc
