// character classes and code points, through the documented interface only
#pragma once
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/code_point.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <map>
#include <string>
#include <vector>
namespace dsl = lexy::dsl;
namespace vf
{
using units = std::vector<unsigned long>;
using fn    = std::vector<std::string> (*)(const units&);
std::map<std::string, fn>& registry();
using strs = std::vector<std::string>;
inline bool reg(const char* n, fn f) { registry()[n] = f; return true; }

template <typename Enc> int put(unsigned long cp, typename Enc::char_type* b)
{
    using C = typename Enc::char_type;
    if constexpr (std::is_same_v<Enc, lexy::utf8_encoding> || std::is_same_v<Enc, lexy::utf8_char_encoding>)
    {
        if (cp < 0x80) { b[0] = C(cp); return 1; }
        if (cp < 0x800) { b[0] = C(0xC0 | cp >> 6); b[1] = C(0x80 | (cp & 0x3F)); return 2; }
        if (cp < 0x10000) { b[0] = C(0xE0 | cp >> 12); b[1] = C(0x80 | (cp >> 6 & 0x3F)); b[2] = C(0x80 | (cp & 0x3F)); return 3; }
        b[0] = C(0xF0 | cp >> 18); b[1] = C(0x80 | (cp >> 12 & 0x3F)); b[2] = C(0x80 | (cp >> 6 & 0x3F)); b[3] = C(0x80 | (cp & 0x3F)); return 4;
    }
    else if constexpr (std::is_same_v<Enc, lexy::utf16_encoding>)
    {
        if (cp < 0x10000) { b[0] = C(cp); return 1; }
        b[0] = C(0xD800 + ((cp - 0x10000) >> 10)); b[1] = C(0xDC00 + ((cp - 0x10000) & 0x3FF)); return 2;
    }
    else { b[0] = C(cp); return 1; }
}
template <typename T> struct one { static constexpr auto rule = T::c + dsl::eof; };
// all code points the class accepts
template <typename T, typename Enc> strs enumerate(const units&)
{
    const unsigned long end = std::is_same_v<Enc, lexy::ascii_encoding> ? 0xFF : std::is_same_v<Enc, lexy::default_encoding> ? 0x100
                              : std::is_same_v<Enc, lexy::utf32_encoding> ? 0x110400 : 0x110000;
    strs r; long lo = -1;
    typename Enc::char_type b[4];
    for (unsigned long cp = 0; cp <= end; ++cp)
    {
        bool in = false;
        if (cp < end) { auto n = put<Enc>(cp, b); in = lexy::match<one<T>>(lexy::string_input<Enc>(b, std::size_t(n))); }
        if (in && lo < 0) lo = long(cp);
        if (!in && lo >= 0) { r.push_back(std::to_string(lo)); r.push_back(std::to_string(cp - 1)); lo = -1; }
    }
    return r;
}
struct err_name
{
    std::string* out;
    struct sink_t
    {
        std::string* out; std::size_t n = 0;
        using return_type = std::size_t;
        template <typename Ctx, typename R> void operator()(const Ctx&, const lexy::error<R, lexy::expected_char_class>& e) { ++n; *out = e.name(); }
        template <typename Ctx, typename E> void operator()(const Ctx&, const E&) { ++n; *out = "another error"; }
        std::size_t finish() && { return n; }
    };
    auto sink() const { return sink_t{out}; }
};
template <typename T, typename Enc> strs class_name(const units&)
{
    std::string s = "no error";
    typename Enc::char_type b[1] = {0};
    lexy::validate<one<T>>(lexy::string_input<Enc>(b, std::size_t(0)), err_name{&s});
    return {s};
}
template <typename T> struct ident { static constexpr auto rule = dsl::identifier(T::c).pattern(); static constexpr auto value = lexy::constant(0); };
struct ptr_cb
{
    using return_type = const void*;
    template <typename... A> constexpr const void* operator()(A... a) const
    {
        const void* r = nullptr;
        ((r = pick(a, r)), ...);
        return r;
    }
    template <typename A> static constexpr const void* pick(A a, const void* r)
    {
        if constexpr (std::is_pointer_v<A>) return a;
        else return r;
    }
};
template <typename T> struct ident_p
{
    static constexpr auto rule  = dsl::opt(dsl::peek(T::c) >> dsl::p<ident<T>>) + dsl::position + dsl::any;
    static constexpr auto value = ptr_cb{};
};
template <typename T> struct tok_p { static constexpr auto rule = T::c + dsl::position + dsl::any; static constexpr auto value = lexy::callback<const void*>([](auto p) -> const void* { return p; }); };
template <typename T> struct del2_p
{
    // everything up to the first character that is not in the class; what comes then is reported as an error
    static constexpr auto rule = dsl::delimited(LEXY_LIT("\1"), LEXY_LIT("\2"))(T::c);
    static constexpr auto value = lexy::noop;
};
struct pos_cb
{
    const void** out;
    struct sink_t
    {
        const void** out; std::size_t n = 0;
        using return_type = std::size_t;
        template <typename Ctx, typename R> void operator()(const Ctx&, const lexy::error<R, void>& e) { if (n++ == 0) *out = e.end(); }
        template <typename Ctx, typename E> void operator()(const Ctx&, const E& e) { if (n++ == 0) *out = e.position(); }
        std::size_t finish() && { return n; }
    };
    auto sink() const { return sink_t{out}; }
};
template <typename T, typename Enc> strs runs(const units& us)
{
    using C = typename Enc::char_type;
    auto make = [&](bool open) {
        std::vector<C> v; if (open) v.push_back(C(1));
        for (auto u : us) v.push_back(C(u));
        return lexy::buffer<Enc>(v.data(), v.size());
    };
    auto in = make(false);
    auto at = [](const void* p, const lexy::buffer<Enc>& b) { return p ? long(static_cast<const C*>(p) - b.data()) : -1; };
    strs r;
    r.push_back(std::to_string(at(lexy::parse<ident_p<T>>(in, lexy::noop).value(), in)));
    auto         din = make(true);
    const void*  p   = nullptr;
    lexy::validate<del2_p<T>>(din, pos_cb{&p});
    r.push_back(p ? std::to_string(at(p, din) - 1) : "none");
    const void* q = nullptr;
    if (lexy::match<tok_p<T>>(in)) q = lexy::parse<tok_p<T>>(in, lexy::noop).value();
    r.push_back(std::to_string(at(q, in)));
    return r;
}
}
