// Runs every action of the library on one production and one input and renders what
// it shows, through the public interface only. The rendering matches spec/Views.tla.
#ifndef VERIF_OBS_HPP
#define VERIF_OBS_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <map>
#include <string>
#include <type_traits>
#include <vector>

#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>

namespace dsl = lexy::dsl;

namespace vf
{
//=== offsets ===//
template <typename It>
struct base
{
    static inline It value{};
};
template <typename It>
long off(It it)
{
    return long(std::distance(base<It>::value, it));
}
inline std::string num(long long n)
{
    return std::to_string(n);
}

//=== values ===//
template <unsigned char A, unsigned char B>
struct byte_in
{
    static constexpr auto name() { return "byte in"; }
    constexpr bool operator()(unsigned char c) const { return A <= c && c <= B; }
};
struct Val
{
    std::string s;
};

inline std::string fmt(const Val& v)
{
    return v.s;
}
inline std::string fmt(lexy::plus_sign)
{
    return "+1";
}
inline std::string fmt(lexy::minus_sign)
{
    return "-1";
}
inline std::string fmt(lexy::nullopt)
{
    return "nil";
}
inline std::string fmt(lexy::code_point cp)
{
    char buf[32];
    std::snprintf(buf, sizeof(buf), "U+%lX", (unsigned long)cp.value());
    return buf;
}
template <typename R>
std::string fmt(const lexy::lexeme<R>& l)
{
    return "L" + num(off(l.begin())) + "-" + num(off(l.end()));
}
template <typename T>
auto fmt(const T& t) -> std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, std::string>
{
    if constexpr (std::is_signed_v<T>)
        return std::to_string((long long)(t));
    else
        return std::to_string((unsigned long long)(t));
}
inline std::string fmt(bool b)
{
    return b ? "true" : "false";
}
template <typename T>
std::string fmt(T* p)
{
    return "@" + num(off(static_cast<const T*>(p)));
}
inline std::string fmt(const std::string& s)
{
    return s;
}
template <typename T>
auto fmt(const T& t) -> std::enable_if_t<std::is_class_v<T>, decltype(*t, ++const_cast<T&>(t), std::string())>
{
    return "@" + num(off(t));
}

// Tags without members.
template <typename T>
auto fmt(const T& t) -> std::enable_if_t<std::is_class_v<T> && std::is_empty_v<T>, std::string>
{
    if constexpr (std::is_convertible_v<T, int>)
        return std::to_string(int(t));
    else
        return "tag";
}

template <typename... Args>
std::string join(const Args&... args)
{
    std::string result;
    ((result += (result.empty() ? "" : ","), result += fmt(args)), ...);
    return result;
}

// Accepts everything, renders it; both callback and sink.
template <typename P>
struct V
{
    using return_type = Val;

    template <typename... Args>
    Val operator()(const Args&... args) const
    {
        return Val{std::string(P::name()) + "(" + join(args...) + ")"};
    }

    struct sink_t
    {
        using return_type = Val;
        std::vector<std::string> items;

        template <typename... Args>
        void operator()(const Args&... args)
        {
            if constexpr (sizeof...(Args) > 0)
                items.push_back("(" + join(args...) + ")");
        }
        Val finish() &&
        {
            std::string r = "[";
            for (std::size_t i = 0; i < items.size(); ++i)
                r += (i ? "," : "") + items[i];
            return Val{r + "]"};
        }
    };
    sink_t sink() const
    {
        return {};
    }
};

// Built by dsl::parse_as.
struct As
{
    std::string s;
    template <typename... Args>
    explicit As(const Args&... args) : s("as(" + join(args...) + ")")
    {}
    As(const As&) = default;
    As(As&)       = default;
    As(As&&)      = default;
    As& operator=(const As&) = default;
    As& operator=(As&&) = default;
};
inline std::string fmt(const As& a)
{
    return a.s;
}
// Member of an aggregate.
struct Any
{
    std::string s = "nil";
    template <typename T>
    Any& operator=(const T& t)
    {
        s = fmt(t);
        return *this;
    }
    Any()           = default;
    Any(const Any&) = default;
    Any(Any&&)      = default;
};
template <typename P, typename S>
struct AggV
{
    using return_type = Val;
    Val operator()(const S& s) const
    {
        return Val{std::string(P::name()) + "(" + s.show() + ")"};
    }
};

//=== errors ===//
// Independent rendering of a literal's text.
template <typename R, typename Char>
std::string text(const Char* str, std::size_t n)
{
    std::string result;
    if constexpr (std::is_same_v<typename R::encoding, lexy::byte_encoding>)
    {
        char buf[8];
        for (std::size_t i = 0; i < n; ++i)
        {
            std::snprintf(buf, sizeof(buf), "\\%02X", unsigned((unsigned char)(str[i])));
            result += buf;
        }
        return result;
    }
    for (std::size_t i = 0; i < n;)
    {
        unsigned long u = (unsigned long)(std::make_unsigned_t<Char>(str[i++]));
        if (sizeof(Char) == 1 && u >= 0xC0)
        {
            int more = u >= 0xF0 ? 3 : u >= 0xE0 ? 2 : 1;
            u        = u & (0x3F >> more);
            for (; more > 0 && i < n; --more)
                u = (u << 6) | ((unsigned long)(unsigned char)(str[i++]) & 0x3F);
        }
        else if (sizeof(Char) == 2 && u >= 0xD800 && u < 0xDC00 && i < n)
            u = 0x10000 + ((u - 0xD800) << 10) + ((unsigned long)(str[i++]) - 0xDC00);
        char buf[32];
        if (u == 0) std::snprintf(buf, sizeof(buf), "\\0");
        else if (u == '\r') std::snprintf(buf, sizeof(buf), "\\r");
        else if (u == '\n') std::snprintf(buf, sizeof(buf), "\\n");
        else if (u == '\t') std::snprintf(buf, sizeof(buf), "\\t");
        else if (u == '\\') std::snprintf(buf, sizeof(buf), "\\\\");
        else if (u >= 0x20 && u < 0x7F) std::snprintf(buf, sizeof(buf), "%c", char(u));
        else if (u < 0x10000) std::snprintf(buf, sizeof(buf), "\\u%04lX", u);
        else std::snprintf(buf, sizeof(buf), "\\U%08lX", u);
        result += buf;
    }
    return result;
}

template <typename R>
std::string err_text(const lexy::error<R, lexy::expected_literal>& e)
{
    return "lit " + text<R>(e.string(), e.length()) + " " + num(off(e.position())) + "+" + num((long long)e.index());
}
template <typename R>
std::string err_text(const lexy::error<R, lexy::expected_keyword>& e)
{
    if (e.position() != e.begin())
        return "kw-position-differs";
    return "kw " + text<R>(e.string(), e.length()) + " " + num(off(e.begin())) + "-" + num(off(e.end()));
}
template <typename R>
std::string err_text(const lexy::error<R, lexy::expected_char_class>& e)
{
    return std::string("cc ") + e.name() + " " + num(off(e.position()));
}
template <typename R>
std::string err_text(const lexy::error<R, void>& e)
{
    if (e.position() != e.begin())
        return "position-differs";
    return std::string(e.message()) + " " + num(off(e.begin())) + "-" + num(off(e.end()));
}

struct Err
{
    struct sink_t
    {
        using return_type = std::vector<std::string>;
        std::vector<std::string> out;
        template <typename Context, typename Error>
        void operator()(const Context& ctx, const Error& e)
        {
            out.push_back(err_text(e) + " in " + ctx.production() + "@" + num(off(ctx.position())));
        }
        std::vector<std::string> finish() &&
        {
            return std::move(out);
        }
    };
    sink_t sink() const
    {
        return {};
    }
};

inline std::string join_errs(const std::vector<std::string>& es)
{
    std::string r;
    for (std::size_t i = 0; i < es.size(); ++i)
        r += (i ? "; " : "") + es[i];
    return r;
}
template <typename R>
std::string status(const R& r)
{
    auto result = r.is_success() ? "ok" : r.is_recovered_error() ? "recovered" : r.is_fatal_error() ? "fatal" : "?";
    if (r.is_success() == r.is_error() || bool(r) != r.is_success() || r.error_count() != r.errors().size())
        return "inconsistent";
    return result;
}

//=== tree ===//
template <typename Tree>
void tree_out(std::vector<std::string>& out, const Tree& tree)
{
    if (tree.empty())
    {
        out.push_back("T0");
        return;
    }
    std::string t = "T";
    for (auto [event, node] : tree.traverse())
    {
        using ev = lexy::traverse_event;
        if (event == ev::enter)
            t += std::string("{") + node.kind().name() + (node.kind().is_token_production() ? "!" : "") + " ";
        else if (event == ev::exit)
            t += "}";
        else
            t += std::string("<") + node.kind().name() + " " + num(off(node.lexeme().begin())) + " "
                 + num(off(node.lexeme().end())) + ">";
    }
    out.push_back(t);
    auto rem = tree.remaining_input();
    out.push_back("S" + num((long long)tree.size()) + " " + num((long long)tree.depth()) + " "
                  + num(off(rem.begin())) + "-" + num(off(rem.end())));
}

template <typename TokenKind = void>
struct opts
{
    bool trace = true, tree = true;
};

struct nostate
{};

// One string per line; what is not printable ASCII as {HH}.
inline std::string bytes(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        if (c >= 0x20 && c < 0x7F)
            r += char(c);
        else
        {
            char b[8];
            std::snprintf(b, sizeof b, "{%02X}", c);
            r += b;
        }
    return r;
}
inline void lines(std::vector<std::string>& out, const std::string& s)
{
    std::string line;
    if (!s.empty() && s.back() != '\n')
        out.push_back("no final newline");
    for (char c : s)
        if (c == '\n')
        {
            out.push_back(bytes(line));
            line.clear();
        }
        else
            line += c;
}

template <typename Prod, typename TokenKind, typename Input>
std::vector<std::string> observe(const Input& input, bool with_trace = true)
{
    using iterator          = typename lexy::input_reader<Input>::iterator;
    base<iterator>::value   = input.reader().position();
    std::vector<std::string> out;

    out.push_back(lexy::match<Prod>(input) ? "M1" : "M0");
    {
        auto r = lexy::validate<Prod>(input, Err{});
        out.push_back("V" + status(r) + " " + join_errs(r.errors()));
    }
    {
        auto r = lexy::parse<Prod>(input, Err{});
        out.push_back("P" + status(r) + " " + join_errs(r.errors()));
        if constexpr (std::is_void_v<typename decltype(r)::value_type>)
            out.push_back("=");
        else
            out.push_back("=" + (r.has_value() ? fmt(r.value()) : std::string()));
    }
    {
        lexy::parse_tree_for<Input, TokenKind> tree;
        auto r = lexy::parse_as_tree<Prod, TokenKind, void>(tree, input, Err{});
        // reported with the tree, so that a difference to validate() shows
        auto summary = "V" + status(r) + " " + join_errs(r.errors());
        if (summary != out[1])
            out.push_back("tree errors differ: " + summary);
        tree_out(out, tree);
    }
    if (with_trace)
    {
        std::string s;
        lexy::trace_to<Prod, TokenKind>(std::back_inserter(s), input);
        std::string line;
        if (s.empty() || s.back() != '\n')
            out.push_back("trace: no final newline");
        for (char c : s)
            if (c == '\n')
            {
                out.push_back(line);
                line.clear();
            }
            else
                line += c;
    }
    return out;
}

//=== registry ===//
using units = std::vector<unsigned long>;
using fn    = std::vector<std::string> (*)(const units&);
std::map<std::string, fn>& registry();
struct reg
{
    reg(const char* n, fn f)
    {
        registry()[n] = f;
    }
};

template <typename Prod, typename TokenKind, typename Encoding>
std::vector<std::string> run_buffer(const units& in, const std::vector<lexy::visualization_options>& topts = {})
{
    using char_type = typename Encoding::char_type;
    std::vector<char_type> chars;
    for (auto u : in)
        chars.push_back(char_type(u));
    lexy::buffer<Encoding> buffer(chars.data(), chars.size());
    auto out = observe<Prod, TokenKind>(buffer);
    for (std::size_t i = 0; i < topts.size(); ++i)
    {
        out.push_back("O" + num((long long)i + 1));
        std::string s;
        lexy::trace_to<Prod, TokenKind>(std::back_inserter(s), buffer, topts[i]);
        lexy::parse_tree_for<lexy::buffer<Encoding>, TokenKind> tree;
        (void)lexy::parse_as_tree<Prod, TokenKind, void>(tree, buffer, lexy::noop);
        lexy::visualize_to(std::back_inserter(s), tree, topts[i]);
        lines(out, s);
    }
    return out;
}
// A memory resource that notices what is not given back.
struct counting_resource
{
    std::map<void*, std::size_t> live;
    bool                         bad = false;

    void* allocate(std::size_t bytes, std::size_t)
    {
        auto p  = std::malloc(bytes);
        std::memset(p, 0xAB, bytes);
        live[p] = bytes;
        return p;
    }
    void deallocate(void* p, std::size_t bytes, std::size_t)
    {
        auto it = live.find(p);
        if (it == live.end() || it->second != bytes)
            bad = true;
        else
            live.erase(it);
        std::free(p);
    }
    friend bool operator==(counting_resource, counting_resource)
    {
        return false;
    }
};

template <typename Tree>
std::vector<std::string> tree_seq(const Tree& tree)
{
    std::vector<std::string> out;
    if (tree.empty())
    {
        out.push_back(tree.size() == 0 ? "T0" : "T0 but a size");
        return out;
    }
    auto rem = tree.remaining_input();
    out.push_back("S" + num((long long)tree.size()) + " " + num((long long)tree.depth()) + " " + num(off(rem.begin())) + "-" + num(off(rem.end())));
    for (auto [event, node] : tree.traverse())
    {
        using ev = lexy::traverse_event;
        if (event == ev::enter)
            out.push_back(std::string("{") + node.kind().name());
        else if (event == ev::exit)
            out.push_back("}");
        else
            out.push_back(std::string("<") + node.kind().name() + " " + num(off(node.lexeme().begin())) + " " + num(off(node.lexeme().end())) + ">");
    }
    return out;
}

// parse_as_tree into a fresh tree, into one that is used for every input, and into one that is moved around.
template <typename Prod, typename TokenKind, typename Encoding>
std::vector<std::string> run_tree(const units& in)
{
    using char_type = typename Encoding::char_type;
    using buffer_t  = lexy::buffer<Encoding>;
    std::vector<char_type> chars;
    for (auto u : in)
        chars.push_back(char_type(u));
    buffer_t buffer(chars.data(), chars.size());
    base<typename lexy::input_reader<buffer_t>::iterator>::value = buffer.reader().position();

    std::vector<std::string> out;
    auto                     go = [&](const char* which, auto& tree) {
        auto r       = lexy::parse_as_tree<Prod, TokenKind>(tree, buffer, Err{});
        auto summary = "V" + status(r) + " " + join_errs(r.errors());
        auto seq     = tree_seq(tree);
        seq.insert(seq.begin(), summary);
        if (out.empty())
            out = seq;
        else if (out != seq)
            out.push_back(std::string(which) + " differs: " + seq[0] + " " + seq[1]);
    };
    {
        static counting_resource                                                         resource;
        {
            lexy::parse_tree_for<buffer_t, TokenKind, counting_resource> tree(&resource);
            go("fresh", tree);
        }
        if (!resource.live.empty() || resource.bad)
            out.push_back("memory: not every block was given back once");
    }
    {
        static lexy::parse_tree_for<buffer_t, TokenKind> tree;
        go("re-used", tree);
        static int turn = 0;
        if (++turn % 3 == 0)
            tree.clear();
    }
    {
        static lexy::parse_tree_for<buffer_t, TokenKind> a, b;
        static int                                       turn = 0;
        if (++turn % 2)
        {
            go("moved", a);
            b = std::move(a);
        }
        else
        {
            lexy::parse_tree_for<buffer_t, TokenKind> c(std::move(b));
            go("moved", c);
            a = std::move(c);
        }
        auto  seq = tree_seq(turn % 2 ? b : a);
        if (!std::equal(seq.begin(), seq.end(), out.begin() + 1, out.begin() + 1 + seq.size()))
            out.push_back("the moved tree is another one");
    }
    return out;
}

//=== the same characters from all kinds of inputs ===//
// An end that is known by a count only.
template <typename Char>
struct counted
{
    using value_type        = Char;
    using reference         = const Char&;
    using pointer           = const Char*;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    const Char* p = nullptr;
    std::size_t left = 0;
    const Char& operator*() const
    {
        if (left == 0)
            std::abort();
        return *p;
    }
    counted& operator++()
    {
        if (left == 0)
            std::abort();
        ++p;
        --left;
        return *this;
    }
    counted operator++(int)
    {
        auto r = *this;
        ++*this;
        return r;
    }
    friend bool operator==(counted a, counted b)
    {
        return a.left == b.left;
    }
    friend bool operator!=(counted a, counted b)
    {
        return a.left != b.left;
    }
};
struct counted_end
{
    template <typename C>
    friend bool operator==(counted<C> a, counted_end)
    {
        return a.left == 0;
    }
    template <typename C>
    friend bool operator!=(counted<C> a, counted_end)
    {
        return a.left != 0;
    }
    template <typename C>
    friend bool operator==(counted_end, counted<C> a)
    {
        return a.left == 0;
    }
    template <typename C>
    friend bool operator!=(counted_end, counted<C> a)
    {
        return a.left != 0;
    }
};

template <typename Prod, typename TokenKind, typename Encoding>
std::vector<std::string> run_inputs(const units& in)
{
    using char_type = typename Encoding::char_type;
    std::vector<char_type> chars;
    for (auto u : in)
        chars.push_back(char_type(u));
    std::vector<std::string> out;
    auto                     go = [&](const char* which, const auto& input) {
        auto o = observe<Prod, TokenKind>(input);
        if (out.empty())
            out = o;
        else if (o != out)
        {
            std::size_t i = 0;
            while (i < o.size() && i < out.size() && o[i] == out[i])
                ++i;
            out.push_back(std::string(which) + " differs: " + (i < o.size() ? o[i] : "nothing"));
        }
    };
    // exactly the memory of the characters
    std::unique_ptr<char_type[]> exact(new char_type[chars.size()]);
    std::copy(chars.begin(), chars.end(), exact.get());
    go("string_input", lexy::string_input<Encoding>(exact.get(), chars.size()));
    // more of the same before and after it
    std::vector<char_type> more;
    for (int i = 0; i < 3; ++i)
        more.insert(more.end(), chars.begin(), chars.end());
    more.resize(more.size() + 32, char_type('a'));
    go("string_input in a longer string", lexy::string_input<Encoding>(more.data() + chars.size(), more.data() + 2 * chars.size()));
    {
        lexy::buffer<Encoding> buffer(exact.get(), chars.size());
        go("buffer", buffer);
        lexy::buffer<Encoding> longer(more.data(), more.size());
        go("lexeme of a buffer", lexy::lexeme_input<lexy::buffer<Encoding>>(longer, longer.data() + chars.size(), longer.data() + 2 * chars.size()));
    }
    {
        std::list<char_type> l(chars.begin(), chars.end());
        go("list", lexy::range_input<Encoding, typename std::list<char_type>::const_iterator>(l.begin(), l.end()));
        lexy::buffer<Encoding> buffer = lexy::make_buffer_from_input(lexy::range_input<Encoding, typename std::list<char_type>::const_iterator>(l.begin(), l.end()));
        go("buffer of a list", buffer);
    }
    {
        std::vector<char_type> l(chars.begin(), chars.end());
        using input_t = lexy::range_input<Encoding, typename std::vector<char_type>::const_iterator>;
        input_t input(l.begin(), l.end());
        go("vector", input);
        go("lexeme of a vector", lexy::lexeme_input<input_t>(input, l.begin(), l.end()));
    }
    {
        counted<char_type> c{exact.get(), chars.size()};
        base<counted<char_type>>::value = c;
        go("forward iterator and sentinel", lexy::range_input<Encoding, counted<char_type>, counted_end>(c, {}));
    }
    if constexpr (std::is_same_v<char_type, char>)
    {
        // every zero ends an argument
        std::vector<std::string> args{"program", ""};
        for (auto c : chars)
            if (c == 0)
                args.emplace_back();
            else
                args.back() += c;
        std::vector<char*> argv;
        for (auto& a : args)
            argv.push_back(const_cast<char*>(a.c_str()));
        argv.push_back(nullptr);
        go("argv", lexy::argv_input<Encoding>(int(args.size()), argv.data()));
        if (chars.empty())
        {
            argv = {argv[0], nullptr};
            go("no arguments", lexy::argv_input<Encoding>(1, argv.data()));
            go("no argv", lexy::argv_input<Encoding>());
        }
    }
    if (chars.empty())
    {
        go("no string", lexy::string_input<Encoding>());
        go("no buffer", lexy::buffer<Encoding>());
        lexy::buffer<Encoding> a(more.data(), more.size()), b(std::move(a));
        go("moved buffer", a);
    }
    if (std::find(chars.begin(), chars.end(), char_type(0)) == chars.end())
    {
        auto z = chars;
        z.push_back(0);
        go("zstring", lexy::zstring_input<Encoding>(z.data()));
    }
    return out;
}

template <typename Prod, typename TokenKind, typename Encoding>
std::vector<std::string> run_argv(const units& in)
{
    std::vector<std::string> args{"program", ""};
    for (auto c : in)
        if (c == 0)
            args.emplace_back();
        else
            args.back() += char(c);
    std::vector<std::unique_ptr<char[]>> mem;
    std::vector<char*>                   argv;
    for (auto& a : args)
    {
        // the same text is the same memory
        if (auto k = std::size_t(std::find(args.begin(), args.end(), a) - args.begin()); k < argv.size())
        {
            argv.push_back(argv[k]);
            continue;
        }
        mem.emplace_back(new char[a.size() + 1]);
        std::memcpy(mem.back().get(), a.c_str(), a.size() + 1);
        argv.push_back(mem.back().get());
    }
    argv.push_back(nullptr);
    auto input = lexy::argv_input<Encoding>(int(args.size()), argv.data());
    auto out   = observe<Prod, TokenKind>(input);
    // the characters in both directions
    auto                       begin = lexy::argv_begin(int(args.size()), argv.data());
    auto                       end   = lexy::argv_end(int(args.size()), argv.data());
    std::vector<unsigned long> fwd, bwd;
    for (auto it = begin; it != end; ++it)
        fwd.push_back((unsigned char)(*it));
    for (auto it = end; it != begin;)
        bwd.push_back((unsigned char)(*--it));
    std::reverse(bwd.begin(), bwd.end());
    if (fwd != in || bwd != in)
        out.push_back("argv iterators give other characters");
    lexy::argv_iterator it = begin;
    for (std::size_t i = 0; i < in.size(); ++i)
        ++it;
    if (!(it == lexy::argv_sentinel{}) || !(it == end) || (in.size() > 0 && begin == lexy::argv_sentinel{}))
        out.push_back("the end of the arguments is elsewhere");
    return out;
}

//=== scanners ===//
struct Tr
{
    std::vector<std::string> out;

    template <typename S, typename... Args>
    void begin(const S& sc, const Args&... args)
    {
        out.push_back("b" + num(off(sc.begin())) + " d" + num((long long)sc.recursion_depth()));
        (out.push_back(fmt(args)), ...);
    }
    template <typename S>
    void op(const S& sc, const std::string& t)
    {
        out.push_back(t + "@" + num(off(sc.position())) + (sc ? "" : "!"));
        if (sc.is_at_eof() != (sc.remaining_input().reader().peek() == S::encoding::eof()))
            out.push_back("eof differs");
    }
    template <typename S, typename T>
    void op(const S& sc, const std::string& t, const lexy::scan_result<T>& r)
    {
        if (bool(r) != r.has_value())
            out.push_back("has_value differs");
        if constexpr (std::is_void_v<T>)
            op(sc, r.has_value() ? t : t + "-");
        else
            op(sc, r.has_value() ? t + fmt(r.value()) : t + "-");
    }
    std::string text() const
    {
        std::string r = "scan(";
        for (std::size_t i = 0; i < out.size(); ++i)
            r += (i ? "," : "") + out[i];
        return r + ")";
    }
};
template <typename Encoding>
struct buf
{
    lexy::buffer<Encoding> buffer;
    explicit buf(const units& in)
    {
        std::vector<typename Encoding::char_type> chars;
        for (auto u : in)
            chars.push_back(typename Encoding::char_type(u));
        buffer = lexy::buffer<Encoding>(chars.data(), chars.size());
        base<typename lexy::input_reader<lexy::buffer<Encoding>>::iterator>::value = buffer.reader().position();
    }
};

template <typename Prod, typename TokenKind, typename Encoding>
std::vector<std::string> run_plain(const units& in)
{
    return run_buffer<Prod, TokenKind, Encoding>(in);
}
} // namespace vf

#define VF_NAME(str)                                                                              \
    static constexpr const char* name()                                                           \
    {                                                                                             \
        return str;                                                                               \
    }
#endif
