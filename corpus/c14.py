"""look-ahead, until, any, eof, eol, newline"""
from gram import *
a, b, c, d, x = (lit(ch) for ch in "abcdx")
sc, cm = lit(";"), lit(",")
def grammars():
    gs = []
    def add(name, rule, alpha, n, **kw): gs.append(G(name, rule if isinstance(rule, list) else [P("Root", rule)], alpha=alpha, n=n, **kw))
    add("peek1", peek(a + b) + pos + a + pos, "ab", 4)
    add("peek2", (peek(lit("ab")) >> a + pos | peek(lit("a")) >> lit("a") + c + pos | else_ >> pos) + pos, "abc", 5)
    add("peek3", (peek(while_(a) + b) >> (pos + until(b)) | peek_not(c) >> pos) + opt(c) + pos, "abc", 6)
    add("peek4", peek(lit("abc"), T(1)) + peek_not(lit("ab"), T(2)) + pos + any_, "abc", 5)
    add("peek5", peek_not(a + a) + pos + while_(a) + pos, "ab", 5)
    add("peek6", while_(peek_not(lit("--")) >> A_char) + pos + opt(lit("--")), "-a", 8)
    add("peek7", if_(peek_not(eof) >> a) + opt(peek(eof) >> pos) + pos, "ab", 4)
    add("peek8", opt_list(peek_not(b) >> (a + pos)) + pos, "abc", 6)
    add("peekerr", try_(peek(a, T(1)) + b, find(sc)) + pos + opt(sc), "ab;", 5)
    add("peekneg", try_(peek_not(a + b, T(1)) + a + c, find(sc)) + pos + opt(sc), "abc;", 5)
    add("peekprd", [P("Q", a + opt(b) + c), P("Root", (peek(prd("Q")) >> prd("Q") | else_ >> while_(a)) + pos)] if False else [P("Root", (peek(a + if_(b) + c) >> (a + opt(b) + c) | else_ >> while_(a)) + pos)], "abc", 5)
    add("peekrec", [P("Root", peek(try_(a + b, find(sc)) + sc) + pos + any_)], "ab;", 5)
    add("peekws", [P("Root", peek(a + b) + a + (peek_not(c) >> opt(b) | c) + pos, ws=lit(" "))], "abc ", 6)
    add("peekws2", [P("Root", (peek(lit(" ")) >> pos | else_ >> a) + pos, ws=lit(" "))], "ab ", 4)
    add("peekws3", [P("Root", nowt(a + (peek(lit(" ")) >> pos | else_ >> b)) + pos, ws=lit(" "))], "ab ", 5)
    # lookahead
    add("look1", look([b], [sc]) + pos + any_, "abc;", 5)
    add("look2", (look([lit("=")], [sc, lit("\n")]) >> until(lit("=")) + pos | else_ >> until(sc) + pos) + pos, "a=;\n", 6)
    add("look3", (look([lit("ab"), lit("b")], [lit("a;"), lit("bb")], T(3)) >> pos | else_ >> a) + pos, "ab;", 6)
    add("look4", look([lit("->")], [lit("-")], T(1)) + pos + while_(A_char), "->a", 6)
    add("look5", try_(look([b], [c]) + b, find(sc)) + pos + opt(sc), "abc;", 5)
    add("look6", [P("Root", (look([lit(":")], [cm]) >> (ident(A_lower, A_lower) + lit(":") + pos) | ident(A_lower, A_lower)) + pos, ws=lit(" "))], "ab:, ", 5)
    add("look7", look([lit("(")], [lit(")")]) + pos + opt(look([lit(")")], [lit("(")])) + pos, "()", 5) if False else None
    # until: every distance, and occurrences that overlap
    for enc in ("utf8", "utf16", "utf32", "ascii", "default", "byte"):
        if enc != "byte":
            add("until_" + enc, until(sc) + pos, "a;", 5, enc=enc, extra=["a" * k + ";" + "b" * j for k in range(20) for j in (0, 1, 8)] + ["a" * k for k in range(20)])
            add("untile_" + enc, until_eof(sc) + pos, "a;", 5, enc=enc, extra=["a" * k + ";" + "b" * j for k in range(20) for j in (0, 1)] + ["a" * k for k in range(20)])
            add("untiln_" + enc, until(newline) + pos + opt(until_eof(newline)) + pos, "a\r\n", 6, enc=enc, extra=["a" * k + t for k in range(18) for t in ("\n", "\r\n", "\r", "\r\r\n", "")])
    add("until2", until(lit("aab")) + pos, "ab", 9)
    add("until3", until(lset(lit("abb"), lit("ba"), lit("bab"))) + pos, "ab", 9)
    add("until4", until(a / b if False else A_digit) + pos + until_eof(A_lower) + pos, "a1-", 6)
    add("until5", until(token(a + while_(b) + a)) + pos, "abc", 7)
    add("until6", until(kw("in", A_lower, A_lower)) + pos, "in ", 7)
    add("until7", until(nf(lit("a"), A_digit)) + pos, "a1b", 6)
    add("until8", until(digits(10)) + pos + until_eof(ndigits(2, 10)) + pos, "a1", 8)
    add("until9", until(cf(lit("ab"))) + pos, "aABb", 6)
    add("untilerr", errtok(until(sc), T(2)) + pos, "a;", 5)
    add("untilbr", (until(sc) >> pos | until(cm) >> x | else_ >> any_) + pos, "a;,x", 6)
    add("untilws", [P("Root", a + until(sc) + pos + opt(b) + until_eof(cm) + pos, ws=lit(" "))], "ab;, ", 6)
    add("untilcap", [P("Root", cap(until(sc)) + pos + cap(until_eof(sc)) + pos, ws=lit(" "))], "a; ", 6)
    add("untiltry", try_(until(sc) + x, find(a)) + pos + opt(a), "ax;", 6)
    # until over malformed text
    gs.append(G("untilbad", [P("Root", until(lit_cp("é")) + pos)], alpha="", n=0, syms=[[0xC3], [0xA9], [97], [0x80]], enc="utf8")); gs[-1].n = 5
    gs.append(G("untilbad16", [P("Root", until(lit_cp("\U0001F600")) + pos)], alpha="", n=5, syms=[[0xD83D], [0xDE00], [97]], enc="utf16"))
    # any, eof, eol, newline
    add("any1", a + any_ + pos + eof, "ab", 4)
    add("any2", opt(lit("a") >> any_) + pos + opt(any_ if False else b) + pos, "ab", 4)
    add("anyws", [P("Root", a + any_ + pos, ws=lit(" "))], "ab ", 5)
    add("eof1", while_(a) + eof, "ab", 5)
    add("eof2", (eof >> pos | a >> (opt(eof >> pos) + opt(b))) + pos + eof, "ab", 5)
    add("eof3", try_(a + eof, find(sc)) + opt(sc) + pos + eof, "ab;", 5)
    add("eofws", [P("Root", a + eof + pos, ws=lit(" "))], "a b", 5)
    for enc in ("utf8", "utf16"):
        add("eol_" + enc, a + eol + pos + opt(a >> eol) + pos + eof, "a\r\n", 6, enc=enc)
        add("nl_" + enc, opt(newline) + while_(a) + newline + pos + eof, "a\r\n", 6, enc=enc)
    add("eolbr", while_(eol >> break_ if False else (a >> eol | b >> newline)) + pos, "ab\r\n", 6)
    add("eolws", [P("Root", a + eol + pos + opt(b) + (eol | cm) + pos, ws=lit(" "))], "ab, \n\r", 5)
    add("eolws2", [P("Root", opt_list(a >> eol) + pos, ws=A_blank)], "a \n\r", 6)
    add("eolws3", [P("Root", opt_list(a >> newline) + eof + pos, ws=A_space)], "a \n\r", 6)
    return [g for g in gs if g]
