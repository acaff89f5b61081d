#include "obs.hpp"
#include <lexy_ext/shell.hpp>
namespace vf
{
//=== interactive shell ===//
template <typename Encoding>
struct typed
{
    using encoding  = Encoding;
    using char_type = typename Encoding::char_type;
    std::vector<char_type> text;
    bool                   eager;
    std::size_t            at = 0, lines = 0;
    bool                   open = true;

    void primary_prompt() {}
    void continuation_prompt() {}
    void eof_prompt() {}
    bool is_open() const
    {
        return open;
    }
    struct read_line_callback
    {
        typed* self;
        std::size_t operator()(char_type* buffer, std::size_t size)
        {
            std::size_t n = 0;
            while (n < size && self->at < self->text.size())
                if ((buffer[n++] = self->text[self->at++]) == char_type('\n'))
                    break;
            if (n < size && (n == 0 || buffer[n - 1] != char_type('\n')))
                self->open = false;
            if (self->eager && self->at == self->text.size())
                self->open = false;
            return n;
        }
        void done() && {}
    };
    auto read_line()
    {
        ++lines;
        return read_line_callback{this};
    }
};
template <typename Prod, typename TokenKind, typename Encoding>
std::vector<std::string> run_shell(const units& in)
{
    using char_type = typename Encoding::char_type;
    std::vector<char_type> chars;
    for (auto u : in)
        chars.push_back(char_type(u));
    std::vector<std::string> out;
    for (int eager = 0; eager < 2; ++eager)
    {
        lexy_ext::shell<typed<Encoding>> shell(typed<Encoding>{chars, eager == 1});
        auto                             input = shell.prompt_for_input();
        (void)lexy::match<Prod>(input);
        auto lines = shell.get_prompt().lines;
        // reading the same again does not need more
        (void)lexy::validate<Prod>(input, Err{});
        (void)lexy::parse<Prod>(input, Err{});
        std::string s;
        lexy::trace_to<Prod, TokenKind>(std::back_inserter(s), input);
        auto again = shell.get_prompt().lines;
        // (the tree contains all of the input)
        auto o = observe<Prod, TokenKind>(input);
        if (again != lines)
            o.push_back("more lines are read");
        if (eager == 0)
        {
            out = o;
            out.push_back("lines " + num((long long)lines));
        }
        else if (o != std::vector<std::string>(out.begin(), out.end() - 1))
            out.push_back("a prompt that closes early differs");
    }
    return out;
}
}
