import sys; sys.path.insert(0,'/verif/tools'); import seedtool as s
H='''#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/action/match.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input/buffer.hpp>
#include <string>
#include <vector>
#include <cstdio>
namespace dsl = lexy::dsl;
'''
E1=H+'''
// begin offset of the last error
static const char* base_; static long b_=-1,e_=-1;
struct cb { struct S { using return_type=std::size_t; std::size_t n=0;
 template<class C,class R,class T> void operator()(const C&, const lexy::error<R,T>& e){ ++n; if constexpr(std::is_same_v<T,void>){ b_=e.begin()-base_; e_=e.end()-base_; } }
 std::size_t finish()&&{return n;} }; S sink() const {return {};} };
'''
s.make("s01a","C01",[("include/lexy/dsl/list.hpp",'''        while (true)
        {
            // Parse a separator if necessary.
            [[maybe_unused]] auto sep_begin = reader.position();''','''        [[maybe_unused]] auto sep_begin = reader.position();
        while (true)
        {
            // Parse a separator if necessary.''')],
E1+'''struct G { static constexpr auto rule = dsl::list(LEXY_LIT("ab"), dsl::sep(dsl::comma)); static constexpr auto value = lexy::noop; };
int main(){ std::string in="ab,ab,ab,"; base_=in.data(); lexy::validate<G>(lexy::string_input<lexy::utf8_char_encoding>((const char*)in.data(), in.size()), cb{});
 std::printf("%ld %ld\\n", b_, e_); return b_==8&&e_==9?0:1; }''',"a list with at least two separators, the last of them trailing","the trailing separator error covers everything from the first separator on")
s.make("s03a","C03",[("include/lexy/dsl/list.hpp",'''                        // (At this point, we know it's not possible to match it at the end).
                        sep_pos = reader.position();''' if '''                        // (At this point, we know it's not possible to match it at the end).
                        sep_pos = reader.position();''' in open('/repo/include/lexy/dsl/list.hpp').read() else 'sep_pos = reader.position();\n','')] if 0 else
 [("include/lexy/dsl/recover.hpp","@@","@@")],"","","") if 0 else None
s.make("s05a","C05",[("include/lexy/dsl/whitespace.hpp","contains[int(' ')]","contains[int('\\n')]")],
H+'''struct G { static constexpr auto whitespace = dsl::ascii::newline; static constexpr auto rule = LEXY_LIT("a") + LEXY_LIT("b") + dsl::eof; static constexpr auto value=lexy::noop; };
int main(){ auto m=[](std::string in){ lexy::buffer<lexy::utf8_char_encoding> b(in.data(), in.size()); return lexy::match<G>(b); };
 return m("a\\nb") && !m("a\\n b") && !m("a\\n        b") && !m("a                b") ? 0 : 1; }''',"whitespace that contains newlines but not the space, a buffer input, and a run of at least eight spaces at a vector-sized step","spaces are skipped although the declared whitespace does not contain them")
s.make("s06a","C06",[("include/lexy/dsl/follow.hpp",'''                typename lit_case_folding::template reader<Reader> case_folded{reader};
                return !lexy::try_match_token(CharClass{}, case_folded);''','''                return !lexy::try_match_token(CharClass{}, reader);''')],
H+'''struct G { static constexpr auto rule = dsl::not_followed_by(dsl::ascii::case_folding(LEXY_LIT("ab")), dsl::ascii::lower) + dsl::any; static constexpr auto value=lexy::noop; };
int main(){ auto m=[](std::string in){ return lexy::match<G>(lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size())); };
 return m("ab") && m("AB1") && !m("abc") && !m("ABC") && !m("abC") ? 0 : 1; }''',"a follow restriction on a case folded literal, and a following upper case character","the following character is not case folded before it is tested, so the restriction does not apply to it")
