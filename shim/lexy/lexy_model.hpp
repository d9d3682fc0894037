// Model of the subset of the lexy parser library that the repository uses; the
// library itself is not installed. Token patterns are matched with lexy's
// semantics: a rule either does not start here (No), matches (Ok), or started
// and failed (Err); lexy never backtracks over a branch that has started.
// Grammars that produce values are only declared: running one is unmodelled.
#pragma once
#include <cstddef>
#include <iterator>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" void symx_unmodelled_lexy_value_grammar();

namespace lexy {
enum class M { No, Ok, Err };
struct Reader {
    const char* it;
    const char* end;
};

struct rule_base {};
struct char_class_base : rule_base {};
template <typename T>
concept Rule = std::is_base_of_v<rule_base, T>;
template <typename T>
concept CharClass = std::is_base_of_v<char_class_base, T>;

template <size_t N>
struct text {
    char s[N];
    constexpr text(const char (&in)[N]) {
        for (size_t i = 0; i < N; ++i) s[i] = in[i];
    }
    static constexpr size_t size = N - 1;
};

namespace dsl {
constexpr char lower(char c) { return ('A' <= c && c <= 'Z') ? char(c + 32) : c; }

template <text T, bool Fold = false>
struct lit : char_class_base {
    static M match(Reader& r) {
        if ((size_t)(r.end - r.it) < T.size) return M::No;
        for (size_t i = 0; i < T.size; ++i) {
            if constexpr (Fold) {
                if (lower(r.it[i]) != lower(T.s[i])) return M::No;
            } else {
                if (r.it[i] != T.s[i]) return M::No;
            }
        }
        r.it += T.size;
        return M::Ok;
    }
    static constexpr bool   contains(char c) { return T.size == 1 && c == T.s[0]; }
    static constexpr size_t len = T.size;
};
template <char C>
struct litc : char_class_base {
    static constexpr bool contains(char c) { return c == C; }
    static M              match(Reader& r) {
        if (r.it == r.end || *r.it != C) return M::No;
        ++r.it;
        return M::Ok;
    }
};
template <char C>
constexpr litc<C> lit_c{};

template <typename F>
struct cclass : char_class_base {
    static constexpr bool contains(char c) { return F{}(c); }
    static M              match(Reader& r) {
        if (r.it == r.end || !F{}(*r.it)) return M::No;
        ++r.it;
        return M::Ok;
    }
};
template <CharClass A, CharClass B>
struct calt : char_class_base {
    static constexpr bool contains(char c) { return A::contains(c) || B::contains(c); }
    static M              match(Reader& r) {
        if (r.it == r.end || !contains(*r.it)) return M::No;
        ++r.it;
        return M::Ok;
    }
};
template <CharClass A, CharClass B>
struct cminus : char_class_base {
    static constexpr bool contains(char c) { return A::contains(c) && !B::contains(c); }
    static M              match(Reader& r) {
        if (r.it == r.end || !contains(*r.it)) return M::No;
        ++r.it;
        return M::Ok;
    }
};
template <CharClass A, CharClass B>
constexpr calt<A, B> operator/(A, B) { return {}; }
template <CharClass A, CharClass B>
constexpr cminus<A, B> operator-(A, B) { return {}; }

template <Rule A, Rule B>
struct seq : rule_base {
    static M match(Reader& r) {
        M a = A::match(r);
        if (a != M::Ok) return a;
        return B::match(r) == M::Ok ? M::Ok : M::Err;
    }
};
template <Rule A, Rule B>
struct choice : rule_base {
    static M match(Reader& r) {
        M a = A::match(r);
        return a == M::No ? B::match(r) : a;
    }
};
template <Rule A, Rule B>
constexpr seq<A, B> operator+(A, B) { return {}; }
template <Rule A, Rule B>
constexpr seq<A, B> operator>>(A, B) { return {}; }
template <Rule A, Rule B>
constexpr choice<A, B> operator|(A, B) { return {}; }

template <Rule A>
struct many : rule_base { // zero or more
    static M match(Reader& r) {
        while (true) {
            M a = A::match(r);
            if (a == M::Err) return a;
            if (a == M::No) return M::Ok;
        }
    }
};
template <Rule A>
struct many1 : rule_base {
    static M match(Reader& r) {
        M a = A::match(r);
        if (a != M::Ok) return a;
        return many<A>::match(r);
    }
};
template <Rule A>
constexpr many<A> while_(A) { return {}; }
template <Rule A>
constexpr many1<A> while_one(A) { return {}; }
template <Rule A>
constexpr many<A> whitespace(A) { return {}; }

template <Rule A>
struct optional : rule_base {
    static M match(Reader& r) { return A::match(r) == M::Err ? M::Err : M::Ok; }
};
template <Rule A>
constexpr optional<A> opt(A) { return {}; }

template <Rule A>
struct untilr : rule_base { // consumes the closing condition as well
    static M match(Reader& r) {
        while (true) {
            M a = A::match(r);
            if (a == M::Ok) return a;
            if (r.it == r.end) return M::Err;
            ++r.it;
        }
    }
};
template <Rule A>
constexpr untilr<A> until(A) { return {}; }

template <size_t N, Rule A>
struct timesr : rule_base {
    static M match(Reader& r) {
        M a = A::match(r);
        if (a != M::Ok) return a;
        for (size_t i = 1; i < N; ++i) {
            if (A::match(r) != M::Ok) return M::Err;
        }
        return M::Ok;
    }
};
template <size_t N, Rule A>
constexpr timesr<N, A> times(A) { return {}; }

template <Rule A, CharClass B>
struct notfollowed : rule_base {
    static M match(Reader& r) {
        Reader save = r;
        M      a    = A::match(r);
        if (a != M::Ok) return a;
        if (r.it != r.end && B::contains(*r.it)) {
            r = save;
            return M::No;
        }
        return M::Ok;
    }
};
template <Rule A, CharClass B>
constexpr notfollowed<A, B> not_followed_by(A, B) { return {}; }

template <CharClass A>
struct ident : rule_base {
    static M match(Reader& r) {
        M a = A::match(r);
        if (a != M::Ok) return a;
        while (r.it != r.end && A::contains(*r.it)) ++r.it;
        return M::Ok;
    }
};
template <CharClass A>
constexpr ident<A> identifier(A) { return {}; }

template <typename... L>
struct litset : rule_base { // longest literal wins
    static M match(Reader& r) {
        const char* best = nullptr;
        (
            [&] {
                Reader t = r;
                if (L::match(t) == M::Ok && (!best || best < t.it)) best = t.it;
            }(),
            ...);
        if (!best) return M::No;
        r.it = best;
        return M::Ok;
    }
};
template <Rule... L>
constexpr litset<L...> literal_set(L...) { return {}; }

template <typename P>
struct prod : rule_base {
    static M match(Reader& r) { return std::remove_cvref_t<decltype(P::rule)>::match(r); }
};
template <typename P>
constexpr prod<P> p{};
template <typename P>
constexpr prod<P> recurse{};

template <Rule A>
struct peekr : rule_base {
    static M match(Reader& r) {
        Reader t = r;
        return A::match(t) == M::Ok ? M::Ok : M::No;
    }
};
template <Rule A>
constexpr peekr<A> peek(A) { return {}; }

template <Rule A>
struct tokenr : rule_base {
    static M match(Reader& r) {
        Reader t = r;
        if (A::match(t) != M::Ok) return M::No;
        r = t;
        return M::Ok;
    }
};
template <Rule A>
constexpr tokenr<A> token(A) { return {}; }
template <Rule A>
struct capturer : rule_base {
    using inner = A;
    static M match(Reader& r) { return A::match(r); }
};
template <Rule A>
constexpr capturer<A> capture(A) { return {}; }

namespace ascii {
struct f_alpha { constexpr bool operator()(char c) const { return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'); } };
struct f_digit { constexpr bool operator()(char c) const { return '0' <= c && c <= '9'; } };
struct f_und { constexpr bool operator()(char c) const { return c == '_'; } };
struct f_space { constexpr bool operator()(char c) const { return c == ' ' || ('\t' <= c && c <= '\r'); } };
struct f_char { constexpr bool operator()(char c) const { return 0 <= (signed char)c; } };
template <typename... F>
struct f_or { constexpr bool operator()(char c) const { return (F{}(c) || ...); } };
constexpr cclass<f_alpha>                      alpha{};
constexpr cclass<f_digit>                      digit{};
constexpr cclass<f_or<f_alpha, f_und>>         alpha_underscore{};
constexpr cclass<f_or<f_alpha, f_digit>>       alpha_digit{};
constexpr cclass<f_or<f_alpha, f_digit, f_und>> alpha_digit_underscore{};
constexpr cclass<f_or<f_alpha, f_digit, f_und>> word{};
constexpr cclass<f_space>                      space{};
constexpr cclass<f_char>                       character{};
template <text T>
constexpr lit<T, true> case_folding(lit<T, false>) { return {}; }
} // namespace ascii

template <int Base = 10>
constexpr cclass<ascii::f_digit> digit{};
template <int Base = 10>
constexpr many1<cclass<ascii::f_digit>> digits{};
// overflow is an error that lexy recovers from; the text is consumed anyway
template <typename T>
constexpr many1<cclass<ascii::f_digit>> integer{};

struct unmodelled : rule_base {
    static M match(Reader&) {
        symx_unmodelled_lexy_value_grammar();
        return M::Err;
    }
};
template <typename... A>
constexpr unmodelled list(A...) { return {}; }
template <typename A>
constexpr unmodelled sep(A) { return {}; }
template <typename A>
constexpr unmodelled curly_bracketed(A) { return {}; }
template <typename A>
constexpr unmodelled round_bracketed(A) { return {}; }
constexpr litc<','> comma{};
struct eofr : rule_base {
    static M match(Reader& r) { return r.it == r.end ? M::Ok : M::No; }
};
constexpr eofr eof{};
} // namespace dsl

struct default_encoding {};
struct utf8_encoding {};
template <typename E = default_encoding>
struct string_input {
    const char* b;
    const char* e;
    string_input(const char* b, size_t n) : b(b), e(b + n) {}
    string_input(const char* b, const char* e) : b(b), e(e) {}
    const char* data() const { return b; }
};
string_input(const char*, size_t) -> string_input<default_encoding>;
string_input(const char*, const char*) -> string_input<default_encoding>;
inline string_input<default_encoding> zstring_input(const char* s) { return {s, std::char_traits<char>::length(s)}; }

template <typename I = string_input<default_encoding>>
struct lexeme {
    const char*         b = nullptr;
    const char*         e = nullptr;
    constexpr const char* begin() const { return b; }
    constexpr const char* end() const { return e; }
};
template <typename E = default_encoding>
using string_lexeme = lexeme<string_input<E>>;
struct nullopt {};

struct noop_t {};
constexpr noop_t noop{};
template <typename I>
struct error_context {};
template <typename R, typename T>
struct error {};

template <typename T, typename... F>
struct callback_t : F... {
    using return_type = T;
    using F::operator()...;
};
template <typename T, typename... F>
constexpr callback_t<T, F...> callback(F... f) { return {f...}; }
template <typename T>
struct value_of_t {
    using return_type = T;
};
template <typename T>
constexpr value_of_t<T> as_string{};
template <typename T>
constexpr value_of_t<T> as_list{};
template <int N>
struct nth {
    template <typename T>
    friend constexpr nth operator||(nth, T const&) { return {}; }
};
constexpr nth<1> _1{};
constexpr nth<2> _2{};
constexpr nth<3> _3{};
template <typename C, typename... A>
constexpr value_of_t<typename C::return_type> bind(C const&, A...) { return {}; }

template <typename T>
struct parse_result {
    std::optional<T>         v;
    bool                     has_value() const { return v.has_value(); }
    T const&                 value() const { return *v; }
    std::vector<std::string> errors() const { return {}; }
};

template <typename P>
concept LexemeProduction = requires { typename std::remove_cvref_t<decltype(P::rule)>::inner; };

template <typename P, typename I, typename E>
auto parse(I const& in, E const&) {
    using V = typename std::remove_cvref_t<decltype(P::value)>::return_type;
    parse_result<V> res;
    if constexpr (LexemeProduction<P>) {
        Reader r{in.b, in.e};
        if (std::remove_cvref_t<decltype(P::rule)>::match(r) == M::Ok) {
            res.v = P::value(string_lexeme<>{in.b, r.it});
        }
    } else {
        symx_unmodelled_lexy_value_grammar();
    }
    return res;
}

struct visualization_options {
    int flags = 0;
};
enum { visualize_use_unicode = 1, visualize_use_symbols = 2, visualize_space = 4 };
template <typename P, typename O, typename I>
void trace_to(O, I const&, visualization_options) {}
} // namespace lexy

namespace lexy_ext::_detail {
template <typename... A>
void write_error(A&&...) {}
} // namespace lexy_ext::_detail

#define LEXY_LIT(s) (::lexy::dsl::lit<::lexy::text(s)>{})
#define LEXY_CHAR_CLASS(name, ...) (__VA_ARGS__)
#define LEXY_LITERAL_SET(...) (::lexy::dsl::literal_set(__VA_ARGS__))
