import sys; sys.path.insert(0, '/verif/tools'); import seedtool as s
exec(open('/verif/tools/seeds_1.py').read().split('s.make("s01a"')[0])
I = "include/lexy/"
B = '''template <class G> static bool m(std::string in){ lexy::buffer<lexy::utf8_char_encoding> b(in.data(), in.size()); return lexy::match<G>(b); }
template <class G> static bool ms(std::string in){ return lexy::match<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size())); }
'''
def mk(id, prop, edits, demo, needs, breaks, **k):
    try: s.make(id, prop, edits, demo, needs, breaks, **k)
    except AssertionError as e: print("SKIP", id, str(e)[:300])
mk("s11a", "C11", [(I + "dsl/delimited.hpp", "if constexpr (sizeof...(Escs) > 0)\n                {\n                    if ((swar_has_char", "if constexpr (sizeof...(Escs) == 1)\n                {\n                    if ((swar_has_char")], H + B + '''struct G { static constexpr auto rule = dsl::quoted(dsl::ascii::print, dsl::backslash_escape.rule(dsl::ascii::alpha / dsl::lit_c<'"'>), dsl::dollar_escape.rule(dsl::lit_c<'$'>)) + dsl::eof; static constexpr auto value = lexy::noop; };
int main(){ return ms<G>("\\"$$abc\\"") && m<G>("\\"$$abc\\"") && !m<G>("\\"ab$cdefghijkl\\"") && m<G>("\\"ab$$defghijkl\\"") && !m<G>("\\"abcdef\\\\1defghijkl\\"") ? 0 : 1; }''', "two escapes, a buffer, and an escape character in the middle of eight characters", "the escape character is taken as an ordinary character")
mk("s12a", "C12", [(I + "dsl/expression.hpp", "= binding_power.is_prefix() ? binding_power.rhs : binding_power.lhs;", "= binding_power.lhs;")], H + '''constexpr auto mi = dsl::op(dsl::lit_c<'-'>); constexpr auto pl = dsl::op(dsl::lit_c<'+'>);
struct E : lexy::expression_production { static constexpr auto atom = dsl::integer<int>;
 struct pre : dsl::prefix_op { static constexpr auto op = mi; using operand = dsl::atom; };
 struct sum : dsl::infix_op_left { static constexpr auto op = pl; using operand = pre; };
 using operation = sum;
 static constexpr auto value = lexy::callback<int>([](int a){return a;}, [](lexy::op<mi>, int a){return -a;}, [](int a, lexy::op<pl>, int b){return a+b;}); };
struct P : lexy::subexpression_production<E, E::pre> {};
struct G { static constexpr auto rule = dsl::p<P> + dsl::lit_c<'+'> + dsl::p<P> + dsl::eof; static constexpr auto value = lexy::callback<int>([](int a, int b){ return a*100+b; }); };
int main(){ std::string in="-1+2"; auto r = lexy::parse<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()), lexy::noop); return r.is_success() && r.value() == -98 ? 0 : 1; }''', "a subexpression whose operation is a prefix operator", "the subexpression consumes operators of looser groups")
mk("s14a", "C14", [(I + "dsl/until.hpp", "swar_has_char_less<char_type, 0xF>", "swar_has_char_less<char_type, 0xA>")], H + B + '''struct G { static constexpr auto rule = dsl::until(dsl::newline) + dsl::eof; static constexpr auto value = lexy::noop; };
int main(){ return m<G>("abc\\n") && m<G>("abcdefghijklmno\\n") && !m<G>("ab\\ndefghijklmnopqrst\\n") && ms<G>("ab\\n") ? 0 : 1; }''', "a buffer with a newline and then further lines", "the search runs past the first newline")
mk("s16a", "C16", [(I + "input/buffer.hpp", '''            _resource->deallocate(_data,
                                  _detail::round_size_for_swar(_size + 1) * sizeof(char_type),
                                  alignof(char_type));
        else
            _resource->deallocate(_data, _size * sizeof(char_type), alignof(char_type));
    }

    buffer& operator=(const buffer& other)''', '''            _resource->deallocate(_data,
                                  _detail::round_size_for_swar(_size) * sizeof(char_type),
                                  alignof(char_type));
        else
            _resource->deallocate(_data, _size * sizeof(char_type), alignof(char_type));
    }

    buffer& operator=(const buffer& other)''')], H + '''#include <memory_resource>
#include <map>
struct R : std::pmr::memory_resource { std::map<void*, std::size_t> live; bool bad=false;
 void* do_allocate(std::size_t b, std::size_t a) override { void* p = std::pmr::new_delete_resource()->allocate(b, a); live[p]=b; return p; }
 void do_deallocate(void* p, std::size_t b, std::size_t a) override { if (live[p]!=b) bad=true; std::pmr::new_delete_resource()->deallocate(p, live[p], a); live.erase(p); }
 bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this==&o; } };
int main(){ R r; for (std::size_t n=0;n<40;++n){ std::string in(n,'a'); lexy::buffer<lexy::utf8_char_encoding, std::pmr::memory_resource> b(in.data(), in.size(), &r); } return r.bad || !r.live.empty(); }''', "a size that is a multiple of the rounding and a resource that relies on the sizes it gets", "memory is given back with a size it was not requested with")
mk("s22a", "C22", [("include/lexy_ext/report_error.hpp", "auto indent_count = lexy::visualization_display_width(line.before, _opts);\n        for (auto i = 0u; i != indent_count; ++i)\n            *out++ = ' ';\n\n        // Colorize.", "auto indent_count = lexy::visualization_display_width(line.before);\n        for (auto i = 0u; i != indent_count; ++i)\n            *out++ = ' ';\n\n        // Colorize.")], H + '''#include <lexy_ext/report_error.hpp>
struct G { static constexpr auto rule = dsl::while_(dsl::ascii::blank) + LEXY_LIT("x"); static constexpr auto value = lexy::noop; };
int main(){ std::string in="\\t\\ty", out; lexy::validate<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()), lexy_ext::report_error.to(std::back_inserter(out)).opts({lexy::visualize_default, lexy::visualization_options::max_tree_depth_limit, 1000, 4}));
 auto l = out.rfind("| "); auto c = out.find('^'); std::printf("%s", out.c_str()); return c - l - 2 == 8 ? 0 : 1; }''', "a tab width and a tab in front of the error", "the marker is not below the error")
mk("s15a", "C15", [(I + "input/argv_input.hpp", "return _arg == rhs._arg && _c == rhs._c;", "return _c == rhs._c;")], H + '''#include <lexy/input/argv_input.hpp>
struct G { static constexpr auto rule = LEXY_LIT("ab") + dsl::argv_separator + LEXY_LIT("ab") + dsl::eof; static constexpr auto value = lexy::noop; };
int main(){ char p[]="p", x[]="ab"; char* argv[]={p,x,x,nullptr}; lexy::argv_input<> in(3, argv); return lexy::match<G>(in) ? 0 : 1; }''', "the same string twice in the argument vector", "the input ends after the first of them")
mk("s17a", "C17", [("src/input/file.cpp", '''    case ENOENT:
    case ENOTDIR:
    case ELOOP:
        return lexy::file_error::file_not_found;

    case EACCES:
    case EPERM:
        return lexy::file_error::permission_denied;

    default:
        return lexy::file_error::os_error;
    }
}

constexpr std::size_t small''', '''    case ENOENT:
    case ENOTDIR:
        return lexy::file_error::file_not_found;

    case EACCES:
    case EPERM:
    case ELOOP:
        return lexy::file_error::permission_denied;

    default:
        return lexy::file_error::os_error;
    }
}

constexpr std::size_t small''')], H + '''#include <lexy/input/file.hpp>
#include <unistd.h>
int main(){ symlink("b", "a"); symlink("a", "b"); auto r = lexy::read_file("a"); auto r2 = lexy::read_file("nope"); return !r && r.error()==lexy::file_error::file_not_found && !r2 && r2.error()==lexy::file_error::file_not_found ? 0 : 1; }''', "a path through a loop of symbolic links", "reported as permission denied instead of file not found", src='"$PWD/src/input/file.cpp"')
mk("s23a", "C23", [(I + "dsl/scan.hpp", "        if (_state == _state_failed)\n            return false;\n\n        auto begin  = _reader.position();\n        auto result = lexy::try_match_token(rule, _reader);", "        if (_state != _state_normal)\n            return false;\n\n        auto begin  = _reader.position();\n        auto result = lexy::try_match_token(rule, _reader);")], H + '''
struct P : lexy::scan_production<int>, lexy::token_production { template <class C, class R> static constexpr scan_result scan(lexy::rule_scanner<C,R>& sc){ sc.parse(LEXY_LIT("a")); if (!sc) { auto g = sc.error_recovery(); if (!sc.discard(LEXY_LIT("b"))) { LEXY_MOV(g).cancel(); return lexy::scan_failed; } LEXY_MOV(g).finish(); } return 1; } };
struct G { static constexpr auto rule = dsl::p<P> + dsl::eof; static constexpr auto value = lexy::forward<int>; };
int main(){ auto f=[](std::string in){ auto r = lexy::parse<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()), lexy::noop); return r.has_value(); }; return f("a") && f("b") && !f("c") ? 0 : 1; }''', "discard() inside an error recovery guard", "the token is not discarded during recovery")
mk("s26a", "C26", [("include/lexy_ext/shell.hpp", "else if (read < buffer_size)", "else if (read <= buffer_size)")], H.replace("#include <string>", "#include <lexy_ext/shell.hpp>\n#include <string>") + '''
struct G { static constexpr auto rule = dsl::until(dsl::newline); static constexpr auto value = lexy::noop; };
struct P { using encoding = lexy::utf8_char_encoding; using char_type = char; std::string t; std::size_t p = 0; void primary_prompt(){} void continuation_prompt(){} void eof_prompt(){} bool is_open() const { return p < t.size(); }
 struct R { P* s; std::size_t operator()(char* b, std::size_t n){ std::size_t i=0; while (i<n && s->p<s->t.size()) { b[i++]=s->t[s->p++]; if (b[i-1]=='\\n') break; } return i; } void done()&&{} }; R read_line(){ return {this}; }
 struct W { void operator()(const char*, std::size_t){} void done()&&{} }; W write_message(){ return {}; } };
int main(){ for (std::size_t n=0;n<5000;++n){ P p; p.t=std::string(n,'a')+"\\n"+"b\\n"; lexy_ext::shell<P> sh(p); auto in = sh.prompt_for_input(); if (!lexy::match<G>(in)) return 1; if (sh.get_prompt().p != n+1) return 1; } return 0; }''', "a line that does not fit into the first buffer", "the line is cut and taken for the end of the input")
mk("s13a", "C13", [(I + "dsl/context_identifier.hpp", '''            reader.reset(end);
            return lexy::whitespace_parser<Context, NextParser>::parse(context, reader,
                                                                       LEXY_FWD(args)...);''', '''            reader.reset(end);
            return NextParser::parse(context, reader, LEXY_FWD(args)...);''')], H + '''struct G { static constexpr auto whitespace = dsl::ascii::space; static constexpr auto id = dsl::context_identifier<struct x>(dsl::identifier(dsl::ascii::alpha));
 static constexpr auto rule = id.create() + id.capture() + dsl::if_(id.rematch() >> LEXY_LIT("!")) + dsl::eof; static constexpr auto value = lexy::as_string<std::string>; };
struct G2 : G { static constexpr auto value = lexy::callback<int>([](auto&&...){ return 1; }); };
int main(){ auto m=[](std::string in){ return lexy::match<G2>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size())); }; return m("ab ab!") && m("ab ab !") && m("ab ") ? 0 : 1; }''', "a rematch as a branch condition in a grammar with whitespace, followed by whitespace", "whitespace after the identifier is not skipped")

mk("s07b", "C07", [(I + "dsl/identifier.hpp", "return _cfl<_lit<CharT, C...>, CaseFolding>{};", "return _lit<CharT, C...>{};")], H + '''constexpr auto id = dsl::identifier(dsl::ascii::alpha); constexpr auto kw = dsl::ascii::case_folding(LEXY_KEYWORD("if", id));
struct G { static constexpr auto rule = (id.reserve(kw) >> dsl::eof) | kw >> LEXY_LIT("!"); static constexpr auto value = lexy::noop; };
int main(){ auto ok=[](std::string in){ auto r=lexy::validate<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()), lexy::noop); return r.is_success(); }; return ok("if!") && ok("IF!") && ok("iF!") && ok("iff") ? 0 : 1; }''', "a reserved keyword with case folding and an identifier in other case", "the identifier is not reserved")
mk("s18b", "C18", [(I + "input_location.hpp", """        if (lhs._line_nr != rhs._line_nr)
            return lhs._line_nr < rhs._line_nr;
        return lhs._column_nr < rhs._column_nr;""", """        return lhs._line_nr < rhs._line_nr || lhs._column_nr < rhs._column_nr;""")], H + '''#include <lexy/input_location.hpp>
int main(){ std::string t="abc\\nd"; auto in=lexy::string_input<lexy::utf8_char_encoding>(t.data(), t.size()); auto a=lexy::get_input_location(in, t.data()+2), b=lexy::get_input_location(in, t.data()+4); return a<b && !(b<a) && a<=b && !(b<=a) && b>a && !(a>b) ? 0 : 1; }''', "a location later in the input with a smaller column", "each of the two is less than the other")
mk("s04b", "C04", [(I + "parse_tree.hpp", """        // in which case we won't overwrite it.
        _result._buffer.reserve(sizeof(_detail::pt_node_production<Reader>)
                                + sizeof(_detail::pt_node<Reader>*));
        auto node
            = _result._buffer.template allocate<_detail::pt_node_production<Reader>>(production);
        // Note: don't append""", """        // in which case we won't overwrite it.
        _result._buffer.reserve(sizeof(_detail::pt_node_production<Reader>));
        auto node
            = _result._buffer.template allocate<_detail::pt_node_production<Reader>>(production);
        // Note: don't append""")], H + '''#include <lexy/parse_tree.hpp>
constexpr auto pl = dsl::op(dsl::lit_c<'+'>);
struct In { static constexpr auto rule = LEXY_LIT("(") >> LEXY_LIT(")"); };
struct E : lexy::expression_production { static constexpr auto atom = dsl::lit_c<'a'>; struct sum : dsl::infix_op_left { static constexpr auto op = pl; using operand = dsl::atom; }; using operation = sum; };
struct X { static constexpr auto rule = dsl::p<E> + dsl::while_(dsl::lit_c<'x'>) + dsl::p<In>; };
int main(){ for (int n=150;n<700;++n){ std::string in="a"+std::string(n,'x')+"()"; auto i=lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()); lexy::parse_tree_for<decltype(i)> t; lexy::parse_as_tree<X>(t, i, lexy::noop);
 std::size_t c=0; for (auto [e,x] : t.traverse()) c += e != lexy::traverse_event::exit; if (c != t.size()) { std::printf("%d %zu %zu\\n", n, c, t.size()); return 1; } } return 0; }''', "a production node that is the last one to fit into a block while its first child does not", "the pointer to the first child is written past the end of the block", flags="-fsanitize=address -g")
mk("s24c", "C24", [(I + "parse_tree.hpp", "        lexy::_detail::swap(_resource, other._resource);\n", "")], H + '''#include <lexy/parse_tree.hpp>
#include <memory_resource>
#include <set>
struct R : std::pmr::memory_resource { std::set<void*> live; bool bad=false;
 void* do_allocate(std::size_t b, std::size_t a) override { void* p = std::pmr::new_delete_resource()->allocate(b, a); live.insert(p); return p; }
 void do_deallocate(void* p, std::size_t b, std::size_t a) override { if (!live.erase(p)) bad=true; std::pmr::new_delete_resource()->deallocate(p, b, a); }
 bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this==&o; } };
struct G { static constexpr auto rule = dsl::while_(dsl::lit_c<'a'>); };
int main(){ R r1, r2; { std::string in="aaa"; auto i=lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()); using T=lexy::parse_tree_for<decltype(i), void, std::pmr::memory_resource>; T a(&r1), b(&r2); lexy::parse_as_tree<G>(a, i, lexy::noop); lexy::parse_as_tree<G>(b, i, lexy::noop); a = static_cast<T&&>(b); } return r1.bad || r2.bad || !r1.live.empty() || !r2.live.empty(); }''', "move assignment between trees with different memory resources", "memory is given back to the wrong resource")
mk("s25b", "C25", [(I + "dsl/flags.hpp", "                result |= flag;", "                else\n                    result += flag;")], H + '''enum class F { none=0, a=1, b=2, ab=3, c=4 };
constexpr auto table = lexy::symbol_table<F>.map<'a'>(F::a).map<'b'>(F::b).map<'x'>(F::ab).map<'c'>(F::c);
struct G { static constexpr auto rule = dsl::flags<F::none>(dsl::symbol<table>) + dsl::eof; static constexpr auto value = lexy::forward<F>; };
static int v(std::string in){ auto r=lexy::parse<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size()), lexy::noop); return r.is_success() ? int(r.value()) : -1; }
int main(){ return v("abc")==7 && v("x")==3 && v("ax")==3 && v("cx")==7 && v("xc")==7 ? 0 : 1; }''', "flags that share bits, one after the other", "the shared bits are added instead of united")
