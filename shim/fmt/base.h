// Minimal stand-in for fmt >= 11 (only fmt 9 is installed and the repository
// needs format_string::get() and fmt/base.h).  Formatting can be switched off
// (the default while checking): error-message text is then the constant
// "<fmt>", no user formatter runs, and no path forks on message digits.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace fmt {
inline bool verif_enabled = false;

struct format_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

class appender {
    std::string* s = nullptr;

  public:
    using iterator_category = std::output_iterator_tag;
    using value_type        = void;
    using difference_type   = std::ptrdiff_t;
    using pointer           = void;
    using reference         = void;
    using container_type    = std::string;
    appender() = default;
    explicit appender(std::string& s) : s(&s) {}
    appender& operator=(char c) {
        s->push_back(c);
        return *this;
    }
    appender&    operator*() { return *this; }
    appender&    operator++() { return *this; }
    appender     operator++(int) { return *this; }
    std::string& target() const { return *s; }
};

class format_context;
class format_args;

class format_parse_context {
    std::string_view v;

  public:
    using iterator                = char const*;
    format_args const* args       = nullptr;
    int*               next_index = nullptr;
    constexpr format_parse_context(std::string_view v) : v(v) {}
    constexpr iterator begin() const { return v.data(); }
    constexpr iterator end() const { return v.data() + v.size(); }
    constexpr void     advance_to(iterator it) { v.remove_prefix(it - v.data()); }
};
template <typename C>
using basic_format_parse_context = format_parse_context;
using parse_context               = format_parse_context;

template <typename T, typename Char = char, typename Enable = void>
struct formatter {
    formatter()                 = delete;
    formatter(formatter const&) = delete;
};

class format_context {
    appender o;

  public:
    using iterator  = appender;
    using char_type = char;
    explicit format_context(appender o) : o(o) {}
    iterator out() const { return o; }
    void     advance_to(iterator it) { o = it; }
};

struct basic_arg {
    void const* p = nullptr;
    void (*call)(void const*, format_parse_context&, format_context&) = nullptr;
    long (*as_int)(void const*)                                      = nullptr;
};

class format_args {
  public:
    std::vector<basic_arg> a;
};

namespace detail {
struct spec {
    char fill = ' ', align = 0, sign = '-', type = 0;
    bool alt = false, zero = false;
    int  width = 0, prec = -1;
};
inline constexpr bool is_align(char c) { return c == '<' || c == '>' || c == '^'; }
inline int dyn(char const*& it, char const* end, format_parse_context& ctx) {
    int id = 0;
    if (it != end && *it == '{') {
        ++it;
        if (it != end && *it != '}') {
            while (it != end && '0' <= *it && *it <= '9') { id = id * 10 + (*it++ - '0'); }
        } else {
            id = (*ctx.next_index)++;
        }
        if (it != end && *it == '}') { ++it; }
        basic_arg const& a = ctx.args->a.at(id);
        return a.as_int ? int(a.as_int(a.p)) : 0;
    }
    while (it != end && '0' <= *it && *it <= '9') { id = id * 10 + (*it++ - '0'); }
    return id;
}
struct spec_formatter {
    spec           s;
    constexpr auto parse(format_parse_context& ctx) {
        auto it = ctx.begin(), end = ctx.end();
        if (it == end || *it == '}') { return it; }
        if (end - it >= 2 && is_align(it[1])) {
            s.fill  = it[0];
            s.align = it[1];
            it += 2;
        } else if (is_align(*it)) {
            s.align = *it++;
        }
        if (it != end && (*it == '+' || *it == '-' || *it == ' ')) { s.sign = *it++; }
        if (it != end && *it == '#') {
            s.alt = true;
            ++it;
        }
        if (it != end && *it == '0') {
            s.zero = true;
            ++it;
        }
        if (it != end && (*it == '{' || ('0' <= *it && *it <= '9'))) {
            s.width = dyn(it, end, ctx);
        }
        if (it != end && *it == '.') {
            ++it;
            s.prec = dyn(it, end, ctx);
        }
        if (it != end && *it != '}') { s.type = *it++; }
        return it;
    }
    appender pad(std::string const& body, format_context& ctx, char def, int prefix) const {
        std::string& o   = ctx.out().target();
        int          len = 0;
        for (char c : body) {
            if ((static_cast<unsigned char>(c) & 0xC0) != 0x80) { ++len; }
        }
        if (s.width <= len) {
            o += body;
        } else if (s.zero && s.align == 0) {
            o.append(body, 0, prefix);
            o.append(s.width - len, '0');
            o.append(body, prefix, std::string::npos);
        } else {
            int  n = s.width - len;
            char a = s.align ? s.align : def;
            int  l = a == '<' ? 0 : a == '>' ? n : n / 2;
            o.append(l, s.fill);
            o += body;
            o.append(n - l, s.fill);
        }
        return ctx.out();
    }
};
struct str_formatter : spec_formatter {
    appender format(std::string_view v, format_context& ctx) const {
        if (s.width == 0 && s.prec < 0) {
            ctx.out().target().append(v.data(), v.size());
            return ctx.out();
        }
        std::string b{v};
        if (0 <= s.prec && s.prec < int(b.size())) { b.resize(s.prec); }
        return pad(b, ctx, '<', 0);
    }
};
struct int_formatter : spec_formatter {
    appender fmt_u(unsigned long long v, bool neg, format_context& ctx) const {
        if (s.type == 'c') { return pad(std::string(1, char(v)), ctx, '<', 0); }
        unsigned base = 10;
        bool     up   = false;
        std::string pre;
        switch (s.type) {
            case 'x': base = 16; pre = "0x"; break;
            case 'X': base = 16; pre = "0X"; up = true; break;
            case 'b': base = 2; pre = "0b"; break;
            case 'B': base = 2; pre = "0B"; break;
            case 'o': base = 8; pre = "0"; break;
            default: break;
        }
        // zero padding is produced by the digit loop itself, so the common
        // fixed-width formats do not branch on the value
        char buf[136];
        int  n     = 136;
        int  want  = s.zero ? s.width - int(neg || s.sign != '-') - (s.alt ? int(pre.size()) : 0) : 0;
        int  shift = base == 16 ? 4 : base == 8 ? 3 : base == 2 ? 1 : 0;
        if (128 < want) { want = 128; }
        do {
            unsigned d = shift ? unsigned(v & (base - 1)) : unsigned(v % base);
            buf[--n]   = char('0' + d + unsigned(d > 9) * (up ? 'A' - '0' - 10 : 'a' - '0' - 10));
            v          = shift ? v >> shift : v / base;
        } while (136 - n < want || v);
        std::string b;
        if (neg) {
            b += '-';
        } else if (s.sign != '-') {
            b += s.sign;
        }
        if (s.alt) { b += pre; }
        int prefix = int(b.size());
        b.append(buf + n, 136 - n);
        return pad(b, ctx, '>', prefix);
    }
};
template <typename T>
concept string_like = std::is_convertible_v<T const&, std::string_view>;
} // namespace detail

#define VERIF_FMT_INT(T)                                                                 \
    template <>                                                                          \
    struct formatter<T, char, void> : detail::int_formatter {                            \
        appender format(T v, format_context& ctx) const {                                \
            bool neg = v < 0;                                                            \
            return fmt_u(                                                                \
                neg ? 0ull - (unsigned long long)(v) : (unsigned long long)(v), neg, ctx); \
        }                                                                                \
    };
VERIF_FMT_INT(signed char)
VERIF_FMT_INT(short)
VERIF_FMT_INT(int)
VERIF_FMT_INT(long)
VERIF_FMT_INT(long long)
VERIF_FMT_INT(unsigned char)
VERIF_FMT_INT(unsigned short)
VERIF_FMT_INT(unsigned int)
VERIF_FMT_INT(unsigned long)
VERIF_FMT_INT(unsigned long long)
#undef VERIF_FMT_INT

template <>
struct formatter<bool, char, void> : detail::int_formatter {
    appender format(bool v, format_context& ctx) const {
        if (s.type == 0 || s.type == 's') { return pad(v ? "true" : "false", ctx, '<', 0); }
        return fmt_u(v, false, ctx);
    }
};
template <>
struct formatter<char, char, void> : detail::int_formatter {
    appender format(char v, format_context& ctx) const {
        if (s.type == 0 || s.type == 'c') { return pad(std::string(1, v), ctx, '<', 0); }
        return fmt_u((unsigned long long)(v < 0 ? -v : v), v < 0, ctx);
    }
};
template <typename T>
    requires std::is_floating_point_v<T>
struct formatter<T, char, void> : detail::spec_formatter {
    appender format(T v, format_context& ctx) const {
        char buf[512];
        char t = s.type ? s.type : 'g';
        char f[16];
        if (0 <= s.prec) {
            std::snprintf(f, sizeof f, "%%.%dL%c", s.prec, t);
            std::snprintf(buf, sizeof buf, f, (long double)v);
        } else if (s.type == 0) {
            for (int p = 1; p <= 21; ++p) {
                std::snprintf(f, sizeof f, "%%.%dLg", p);
                std::snprintf(buf, sizeof buf, f, (long double)v);
                T back = T(std::strtold(buf, nullptr));
                if (back == v) { break; }
            }
        } else {
            std::snprintf(f, sizeof f, "%%L%c", t);
            std::snprintf(buf, sizeof buf, f, (long double)v);
        }
        std::string b = buf;
        return pad(b, ctx, '>', !b.empty() && b[0] == '-');
    }
};
template <>
struct formatter<char const*, char, void> : detail::str_formatter {
    appender format(char const* v, format_context& ctx) const {
        return detail::str_formatter::format(std::string_view(v), ctx);
    }
};
template <>
struct formatter<char*, char, void> : formatter<char const*, char, void> {};
template <std::size_t N>
struct formatter<char[N], char, void> : formatter<char const*, char, void> {};
template <>
struct formatter<std::string_view, char, void> : detail::str_formatter {};
template <>
struct formatter<std::string, char, void> : detail::str_formatter {};
template <typename P>
struct ptr_formatter : detail::int_formatter {
    appender format(P v, format_context& ctx) const {
        auto c   = *this;
        c.s.type = 'x';
        c.s.alt  = true;
        return c.fmt_u((unsigned long long)(std::uintptr_t)(v), false, ctx);
    }
};
template <>
struct formatter<void const*, char, void> : ptr_formatter<void const*> {};
template <>
struct formatter<void*, char, void> : ptr_formatter<void*> {};
template <>
struct formatter<std::nullptr_t, char, void> : ptr_formatter<std::nullptr_t> {};

namespace detail {
template <typename T>
concept has_fmt = requires { formatter<T, char, void>(); };
template <typename T>
concept formattable_ = has_fmt<std::remove_cvref_t<T>>
                    || string_like<std::remove_cvref_t<T>>;
template <typename T>
void call(void const* p, format_parse_context& pc, format_context& ctx) {
    T const& v = *static_cast<T const*>(p);
    if constexpr (has_fmt<T>) {
        formatter<T, char, void> f;
        pc.advance_to(f.parse(pc));
        f.format(v, ctx);
    } else {
        str_formatter f;
        pc.advance_to(f.parse(pc));
        f.format(std::string_view(v), ctx);
    }
}
template <typename T>
basic_arg mk(T const& v) {
    basic_arg a;
    a.p    = static_cast<void const*>(std::addressof(v));
    a.call = &call<T>;
    if constexpr (std::is_integral_v<T>) {
        a.as_int = +[](void const* p) { return long(*static_cast<T const*>(p)); };
    }
    return a;
}
} // namespace detail

template <typename T, typename C = char>
struct is_formattable : std::bool_constant<detail::formattable_<T>> {};
template <typename T, typename C = char>
concept formattable = detail::formattable_<T>;

template <typename... Args>
struct format_string_impl {
    std::string_view v;
    template <typename S>
        requires std::is_convertible_v<S const&, std::string_view>
    constexpr format_string_impl(S const& s) : v(s) {}
    constexpr std::string_view get() const { return v; }
    constexpr operator std::string_view() const { return v; }
};
template <typename... Args>
using format_string = format_string_impl<std::type_identity_t<Args>...>;
using string_view   = std::string_view;
using context       = format_context;

struct runtime_str {
    std::string_view v;
    operator std::string_view() const { return v; }
};
inline runtime_str runtime(std::string_view v) { return {v}; }

template <typename... Args>
format_args make_format_args(Args&... args) {
    format_args r;
    if (verif_enabled) { (r.a.push_back(detail::mk(args)), ...); }
    return r;
}

inline void vformat_into(std::string& res, std::string_view f, format_args const& args) {
    if (!verif_enabled) {
        res += "<fmt>";
        return;
    }
    format_context ctx{appender(res)};
    int            next = 0;
    for (std::size_t i = 0; i < f.size();) {
        if (f[i] == '{') {
            if (i + 1 < f.size() && f[i + 1] == '{') {
                res += '{';
                i += 2;
                continue;
            }
            ++i;
            int  id  = 0;
            bool any = false;
            while (i < f.size() && '0' <= f[i] && f[i] <= '9') {
                id = id * 10 + (f[i++] - '0');
                any = true;
            }
            if (!any) { id = next++; }
            if (i < f.size() && f[i] == ':') { ++i; }
            format_parse_context pc{f.substr(i)};
            pc.args           = &args;
            pc.next_index     = &next;
            basic_arg const& a = args.a.at(id);
            a.call(a.p, pc, ctx);
            i = pc.begin() - f.data();
            if (i < f.size() && f[i] == '}') { ++i; }
        } else if (f[i] == '}' && i + 1 < f.size() && f[i + 1] == '}') {
            res += '}';
            i += 2;
        } else {
            res += f[i++];
        }
    }
}
inline std::string vformat(std::string_view f, format_args const& args) {
    std::string res;
    vformat_into(res, f, args);
    return res;
}
template <typename... Args>
std::string format(format_string<Args...> f, Args&&... args) {
    return ::fmt::vformat(f.get(), ::fmt::make_format_args(args...));
}
template <typename... Args>
appender format_to(appender out, format_string<Args...> f, Args&&... args) {
    vformat_into(out.target(), f.get(), ::fmt::make_format_args(args...));
    return out;
}
template <typename Out, typename... Args>
Out format_to(Out out, format_string<Args...> f, Args&&... args) {
    for (char c : ::fmt::vformat(f.get(), ::fmt::make_format_args(args...))) { *out++ = c; }
    return out;
}
template <typename T>
std::string to_string(T const& v) {
    return format("{}", v);
}
} // namespace fmt
