#include "obs.hpp"
#include <lexy_ext/report_error.hpp>
namespace vf
{
inline std::string shown(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        if (c >= 0x20 && c < 0x7F)
            r += char(c);
        else
        {
            char b[8];
            std::snprintf(b, sizeof b, "{%02X}", c);
            r += b;
        }
    return r;
}
template <typename Prod, typename TokenKind, typename Encoding>
std::vector<std::string> run_report(const units& in, const std::vector<lexy::visualization_options>& topts)
{
    using char_type = typename Encoding::char_type;
    std::vector<char_type> chars;
    for (auto u : in)
        chars.push_back(char_type(u));
    lexy::buffer<Encoding> buffer(chars.data(), chars.size());
    std::unique_ptr<char_type[]> exact(new char_type[chars.size()]);
    std::copy(chars.begin(), chars.end(), exact.get());
    lexy::string_input<Encoding> string(exact.get(), chars.size());

    std::vector<std::string> out;
    std::string              count;
    auto                     once = [&](auto action, auto error) {
        std::string s;
        auto        r = action(error.to(std::back_inserter(s)));
        auto        c = num((long long)r.error_count()) + " "
                 + (r.is_success() ? "ok" : r.is_recovered_error() ? "recovered" : "fatal");
        if (count.empty())
            count = c;
        else if (count != c)
            out.push_back("the number of errors differs: " + c);
        return shown(s);
    };
    auto each = [&](auto error) {
        auto s = once([&](auto e) { return lexy::validate<Prod>(buffer, e); }, error);
        if (once([&](auto e) { return lexy::validate<Prod>(string, e); }, error) != s)
            out.push_back("string input differs");
        if (once([&](auto e) { return lexy::parse<Prod>(buffer, e); }, error) != s)
            out.push_back("parse differs");
        lexy::parse_tree_for<lexy::buffer<Encoding>, TokenKind> tree;
        if (once([&](auto e) { return lexy::parse_as_tree<Prod, TokenKind, void>(tree, buffer, e); }, error) != s)
            out.push_back("parse_as_tree differs");
        return s;
    };
    for (std::size_t i = 0; i < topts.size(); ++i)
    {
        if (i % 2 == 0)
            out.push_back(each(lexy_ext::report_error.opts(topts[i])));
        else
            out.push_back(each(lexy_ext::report_error.path("dir/a file").opts(topts[i])));
    }
    auto plain = each(lexy_ext::report_error);
    // to stderr
    char*       mem  = nullptr;
    std::size_t size = 0;
    auto        old  = stderr;
    stderr           = ::open_memstream(&mem, &size);
    (void)lexy::validate<Prod>(buffer, lexy_ext::report_error);
    std::fclose(stderr);
    stderr = old;
    if (shown(std::string(mem, size)) != plain)
        out.push_back("stderr differs");
    std::free(mem);
    out.push_back(count);
    out.push_back(plain);
    return out;
}
}
