"""delimited and quoted rules"""
from gram import *
from c07 import table
def q(c): return lit_c(c)
def esc(tok, *rs, cpp=None):
    e = Esc(tok, rs)
    if cpp: e.cpp = cpp + "".join(c for c, _ in rs)
    return e
BS = lambda *rs: esc(lit_c("\\"), *rs, cpp="dsl::backslash_escape")
DL = lambda *rs: esc(lit_c("$"), *rs, cpp="dsl::dollar_escape")
def grammars():
    gs = []
    def add(name, rule, alpha, n, **kw): gs.append(G(name, [P("Root", rule)], alpha=alpha, n=n, **kw))
    T1, t1 = table("t1", [("n", 10), ("t", 9), ("nn", 8)])
    Q = lit_c('"')
    QUOTED = [("quoted", lit('"')), ("triple_quoted", lit('"""')), ("single_quoted", lit("'")), ("backticked", lit("`")), ("double_backticked", lit("``")), ("triple_backticked", lit("```"))]
    for nm, d in QUOTED:
        ch = vis_ch = d.kw["u"].s[0]
        add("q_" + nm, delim(d, d, A_print, cpphead="dsl::" + nm) + pos, ch + "a\x01", 7 if len(d.kw["u"].s) > 1 else 5)
    CC = {"print": A_print, "char": A_char, "lower": A_lower, "notx": -lit_cls("x"), "union": A_lower / A_digit}
    for enc in ("utf8", "utf16", "utf32", "ascii", "default"):
        for nm, cc in CC.items():
            if enc in ("ascii", "default") and nm == "notx": continue
            # content of every length around the vector width, ended by everything
            ext = ["(" + "a" * k + ch + t for k in range(0, 19) for ch in (")", "\x7f", "\0", "X", "x", "") for t in ("", ")", "b)")]
            if enc in ("utf8", "utf16", "utf32"): ext += ["(" + "a" * k + "é" + "b" * j + ")" for k in range(0, 10) for j in (0, 1, 8)] + ["(a\U0001F600b)", "(\U0001F600)"]
            bad = {"utf8": [[40] + [97] * k + [0xC3] + r for k in (0, 3, 7, 8) for r in ([], [41], [97, 41], [0xC3, 41])] + [[40, 0x80, 41], [40, 0xE2, 0x82, 41], [40, 0xF0, 0x9F, 41], [40, 0xED, 0xA0, 0x80, 41]],
                   "utf16": [[40, 0xD800, 41], [40, 0xDC00, 41], [40, 97, 0xD800], [40, 97, 97, 97, 0xD83D, 97, 41]],
                   "utf32": [[40, 0xD800, 41], [40, 0x110000, 41], [40, 97, 0xFFFFFFF, 97, 41]],
                   "ascii": [[40, 200, 41]], "default": [[40, 200, 41], [40, 97, 97, 97, 97, 97, 97, 97, 97, 255, 41]]}[enc]
            if nm == "notx" and enc == "utf8": bad = [b for b in bad if 0xFF not in b]
            add("d_%s_%s" % (enc, nm), delim(lit("("), lit(")"), cc) + pos, "(a)x\x01" if nm != "lower" else "(a)1", 5, enc=enc, extra=ext + bad)
        add("de_" + enc, delim(lit("("), lit(")"), A_print, [BS(esc_cap(A_char))]) + pos, "(a)\\\x02", 5, enc=enc,
            extra=["(" + "a" * k + "\\" + ch + "b" * j + ")" for k in (0, 3, 4, 6, 7, 8, 9, 15, 16) for j in (0, 1, 7, 8) for ch in (")", "\\", "a", "")])
    # escapes of all kinds
    add("esc1", delim(Q, Q, A_print, [BS(esc_cap(A_print))]) + pos, '"a\\', 7)
    for enc in ("utf8", "utf16"):
        gs.append(G("escsym_" + enc, [P("Root", delim(Q, Q, A_print, [BS(esc_sym(t1), esc_rule(lit("u") >> cp_id(2)))]) + pos)], pre=T1, alpha='"nut\\4', n=5, rnd=2000, rlen=10, enc=enc,
                    extra=['"\\n\\t\\nn\\u41x"', '"\\u4"', '"\\u"', '"\\x"', '"\\']))
    gs.append(G("escsymtok", [P("Root", delim(Q, Q, A_print, [BS(esc_sym(t1, A_alpha))]) + pos)], pre=T1, alpha='"na\\', n=6))
    add("esc2", delim(Q, Q, A_print, [BS(esc_cap(lit("a")), esc_rule(lit("b") >> pos)), DL(esc_cap(A_digit))]) + pos, '"ab\\$1', 5, rnd=2000, rlen=10)
    add("esc3", delim(Q, Q, A_print, [esc(lit("\\"), esc_rule(lit("u") >> integer("unsigned char", 255, digits(10), 10, deduce=True)), esc_rule(lit("c") >> (lit("{") + lit("}")))), ]) + pos, '"u\\c2{}', 4, rnd=4000, rlen=10, extra=['"\\u200a\\c{}"', '"\\u300"', '"\\c{a"', '"\\ca"', '"\\ux"'])
    gs.append(G("escprd", [P("E", lit("e") >> opt(lit("!"))), P("F", lit("f") >> A_digit), P("Root", delim(Q, Q, A_print, [esc(lit("%"), esc_rule(prd("E")), esc_rule(prd("F")))]) + pos)], alpha='"ef%!1', n=5, rnd=2500, rlen=9))
    gs.append(G("escif", [P("Root", delim(Q, Q, A_print, [esc(lit("%"), esc_rule(peek(lit("a")) >> pos), esc_rule(else_ >> lit("z")))]) + pos)], alpha='"az%', n=6))
    add("escdouble", delim(lit("'"), lit("'"), A_print, [esc(lit("''"), esc_rule(else_ >> pos))]) + pos, "'a", 8) if False else None
    # whitespace is not skipped inside
    gs.append(G("dws", [P("Root", delim(lit("("), lit(")"), A_print, [BS(esc_cap(A_print))]) + pos + opt(delim(lit("<"), lit(">"), A_alpha)) + pos + eof, ws=lit(" "))], alpha="( )a\\<>", n=4, rnd=3000, rlen=9, extra=["( a ) < a >", "( \\  ) <a>", "(a) "]))
    gs.append(G("dwsnest", [P("S", delim(lit("("), lit(")"), A_print)), P("Root", list_(prd("S"), sep(lit(","))) + pos, ws=lit(" "))], alpha="( ),a", n=5, rnd=1500, rlen=9))
    gs.append(G("dnowt", [P("Root", nowt(delim(lit("("), lit(")"), A_print) + lit("!")) + lit("?") + pos, ws=lit(" "))], alpha="( )!?a", n=4, rnd=2500, rlen=8))
    gs.append(G("dtok", [P("S", delim(lit("("), lit(")"), A_print), tok=True), P("Root", prd("S") + pos + opt(prd("S")), ws=lit(" "))], alpha="( )a", n=6))
    # limits
    for enc in ("utf8", "utf16"):
        add("dlim_" + enc, delim(Q, Q, A_print, [BS(esc_cap(A_print))], lim=A_newline) + pos, '"a\\\n', 6, enc=enc, extra=['"' + "a" * k + "\n" + t for k in range(10) for t in ("", '"', 'b"')])
    add("dlim2", delim(Q, Q, A_char, lim=A_upper, ltag=T(2)) + pos, '"eNd', 6)
    add("dlim3", delim(Q, Q, -A_control, lim=A_newline) + pos, '"é\n\x01', 5)
    add("dcctag", delim(Q, Q, A_lower, cctag=T(4)) + pos, '"aA', 6)
    # close delimiter that is a branch, that shares characters with the content
    add("dclose", delim(lit("<!--"), lit("-->"), A_print) + pos, "<!->a", 4, rnd=3000, rlen=11, extra=["<!--->", "<!---->", "<!-- a --->", "<!--a--b-->", "<!--" + "a" * 9 + "-->", "<!--" + "-" * 9 + ">", "<!--" + "a" * 6 + "-->"] + ["<!--" + "a" * k + "-" * j + ">" + "x" for k in range(9) for j in range(4)])
    add("dcloseset", delim(lit("["), lset(lit("]"), lit("]]")), A_print) + pos, "[]a", 7)
    add("dclosetok", delim(lit("["), token(lit("]") + opt(lit("=")) + lit("]")), A_print) + pos, "[]=a", 6)
    add("dbranch", opt(delim(Q, Q, A_print)) + pos + (delim(lit("("), lit(")"), A_digit) | delim(lit("<"), lit(">"), A_alpha)) + pos, '"(<1)>a', 4, rnd=3000, rlen=9)
    # recovery around
    add("dtry", try_(delim(Q, Q, A_print, lim=A_newline), find(lit(";"))) + lit(";") + pos, '"a;\n', 6)
    add("dlist", b_opt_list(lit("["), lit("]"), delim(Q, Q, A_lower, lim=A_upper), sep(lit(","))) + pos, '[],"a;1', 4, rnd=4000, rlen=10, extra=['["a","b"]', '["a,"b"]', '["1"]', '["aX]'])
    return gs
