"""context variables and recursion depth: scopes, failures, recovery, backtracking"""
from gram import *
a, b, c, d, x, y, z = (lit(ch) for ch in "abcdxyz")
lp, rp, sc, cm, ex = (lit(ch) for ch in "();,!")
ID = ident(A_lower, A_lower)
def grammars():
    gs = []
    def add(name, prods, alpha, n, pre="", **kw): gs.append(G(name, prods if isinstance(prods, list) else [P("Root", prods)], alpha=alpha, n=n, pre=pre, **kw))
    F, C = flag_decl("f", "g"), ctr_decl("k", "m")
    fv, gv, kv, mv = flag_val("f"), flag_val("g"), ctr_val("k"), ctr_val("m")
    # flags
    ops = a >> flag_set("f") | b >> flag_reset("f") | c >> flag_toggle("f")
    add("flag1", flag_new("f") + while_(ops) + fv, "abcx", 6, F)
    add("flag2", flag_new("f", True) + while_(ops) + (flag_is("f") >> x | flag_is("f", False) >> y) + fv, "abcxy", 5, F)
    add("flag3", flag_new("f") + flag_new("g", True) + while_(ops | d >> flag_toggle("g")) + fv + gv + if_(flag_is("g") >> x) + opt(flag_is("f") >> y), "abcdxy", 4, F, rnd=1500, rlen=8)
    add("flagshadow", flag_new("f") + while_(ops) + fv + flag_new("f", True) + (lp >> while_(ops)) + fv + rp + fv, "ab()", 6, F)
    # scopes: a variable created in a production, an item, a branch, a loop, a try ends there
    add("scopeprd", [P("In", flag_new("f") + lp + while_(ops) + fv + rp), P("Root", flag_new("f", True) + while_(ops) + prd("In") + fv + while_(ops) + fv)], "abc()", 5, F, rnd=2500, rlen=9)
    add("scopeprd2", [P("In", lp + while_(ops) + fv + rp), P("Root", flag_new("f", True) + while_(ops) + prd("In") + fv + while_(ops) + fv)], "abc()", 5, F, rnd=2500, rlen=9)
    add("scopetry", [P("In", flag_new("f") + lp + while_(ops) + fv + rp), P("Root", flag_new("f", True) + try_(prd("In"), find(sc)) + opt(sc) + fv + while_(ops) + fv)], "abc();", 5, F, rnd=2500, rlen=9)
    add("scopetry2", flag_new("f", True) + try_(flag_new("f") + lp + while_(ops) + rp, find(sc)) + opt(sc) + fv, "abc();", 5, F)
    add("scopelist", flag_new("f") + list_(lp >> (flag_new("f", True) + while_(ops) + fv + rp), sep(cm)) + while_(ops) + fv, "abc(),", 4, F, rnd=3500, rlen=10, extra=["(a),(b)c", "(c)", "(c),(b),()a"])
    add("scopelistt", flag_new("f") + tlist(sc, lp >> (flag_new("f", True) + while_(ops) + fv + rp), sep(cm)) + while_(ops) + fv, "ac(),;", 4, F, rnd=3500, rlen=10, extra=["(a),(c);c", "(c),(;a", "(c(),(c);c"])
    add("scopewhile", flag_new("f") + opt_list(lp >> (flag_new("f", True) + while_(ops) + fv + rp)) + while_(ops) + fv, "ac()", 6, F)
    add("scopeloop", flag_new("f") + loop(lp >> (flag_new("f", True) + while_(ops) + rp) | ex >> break_ | ops) + fv, "ac()!", 6, F)
    add("scopeopt", flag_new("f") + opt(lp >> (flag_new("f", True) + while_(ops) + fv)) + fv, "ac(", 6, F)
    add("scopeesc", flag_new("f") + delim(lp, rp, A_lower, [Esc(lit("$"), [esc_rule(a >> (flag_set("f") + fv)), esc_rule(b >> (flag_new("f") + flag_toggle("f") + fv)), esc_rule(c >> flag_set("f") + x)])]) + fv, "ab()$c", 4, F, rnd=3000, rlen=9)
    # failure after modification of an outer variable: the modification stays
    add("failmod", flag_new("f") + try_(a + flag_set("f") + b, find(sc)) + opt(sc) + fv, "ab;x", 5, F)
    add("failmod2", [P("In", a >> (flag_toggle("f") + b)), P("Root", flag_new("f") + tlist(sc, prd("In")) + fv)], "ab;x", 6, F)
    # backtracking: peek and branches of a production
    add("peekmod", flag_new("f") + (peek(a + b) >> (a + flag_set("f")) | a) + fv + opt(b), "abx", 4, F)
    # counters
    cops = a >> ctr_inc("k") | b >> ctr_dec("k")
    add("ctr1", ctr_new("k") + while_(cops) + kv + (ctr_zero("k") >> x | ctr_is("k", 1) >> y | ctr_is("k", -1) >> z) + kv, "abxyz", 5, C)
    add("ctr2", ctr_new("k", 5) + while_(cops) + kv + if_(ctr_is("k", 6) >> x), "abx", 6, C)
    add("ctr3", ctr_new("k") + ctr_new("m") + while_(a >> ctr_inc("k") | b >> ctr_inc("m")) + ctr_eq("k", "m") + kv + mv, "abx", 7, C)
    add("ctr4", ctr_new("k") + ctr_new("m", 1) + while_(a >> ctr_inc("k") | b >> ctr_inc("m")) + (ctr_eq("k", "m") >> x | else_ >> y) + kv + mv, "abxy", 6, C)
    add("push1", ctr_new("k") + ctr_push("k", while_(a)) + kv + b + ctr_pop("k", while_(a)) + kv + if_(ctr_zero("k") >> x), "abx", 7, C)
    add("push2", ctr_new("k") + opt(ctr_push("k", a >> while_(a))) + kv + while_(ctr_pop("k", b)) + kv, "abx", 7, C)
    add("push3", ctr_new("k") + ctr_push("k", cap(token(while_one(a)))) + kv + lit("#") + ctr_pop("k", prd("In")) + kv, "", 0) if False else None
    add("push4", [P("In", while_(a) + opt(b)), P("Root", ctr_new("k", 2) + ctr_push("k", prd("In")) + x + kv + ctr_pop("k", prd("In")) + kv + opt(ctr_is("k", 2) >> y))], "abxy", 6, C)
    add("raw", ctr_new("k") + lit("r") + ctr_push("k", while_(lit("#"))) + delim(lit('"'), lit('"'), A_lower) + ctr_pop("k", while_(lit("#"))) + (ctr_zero("k") >> pos | else_ >> err(T(1))) + kv, 'r#"a', 6, C)
    # identifiers
    for enc in ("utf8", "utf16"):
        D = cid_decl("i", ID)
        add("id1_" + enc, cid_new("i") + cid_cap("i", ID) + cm + cid_rem("i", ID) + pos, "ab,1", 6, D, enc=enc)
        add("id2_" + enc, cid_new("i") + cid_cap("i", ID) + cm + (cid_rem("i", ID) >> x | ID) + pos, "ab,x", 6, D, enc=enc)
        add("idlong_" + enc, cid_new("i") + cid_cap("i", ID) + cm + opt(cid_rem("i", ID)) + pos, "", 0, D, enc=enc, extra=["a" * k + "b" + "a" * j + "," + "a" * k2 + "b" + "a" * j for k in range(5) for j in range(5) for k2 in range(5)])
    IR = ident(A_lower, A_lower, [("is", [lit("ab")])])
    add("id3", cid_new("i") + opt(cid_cap("i", IR)) + cm + cid_rem("i", IR, T(1)) + pos, "ab,1", 6, cid_decl("i", IR))
    add("id4", [P("In", cid_new("i") + cid_cap("i", ID) + lp + opt(cid_rem("i", ID)) + rp), P("Root", cid_new("i") + cid_cap("i", ID) + cm + prd("In") + cm + cid_rem("i", ID) + pos)], "ab,()", 4, cid_decl("i", ID), rnd=3000, rlen=10, extra=["a,b(b),a", "a,b(a),a", "ab,a(),ab", "a,b(),b"])
    add("id5", [P("Root", cid_new("i") + cid_cap("i", ID) + opt_list(lit(".") >> (cid_cap("i", ID))) + cm + cid_rem("i", ID) + pos, ws=lit(" "))], "ab,. ", 6, cid_decl("i", ID))
    add("idws1", [P("Root", cid_new("i") + cid_cap("i", ID) + cm + (cid_rem("i", ID) >> pos | else_ >> lit("!")) + lit("1") + pos, ws=lit(" "))], "a,1 !", 5, cid_decl("i", ID), rnd=1200, rlen=9, extra=["a, a 1", "a ,a1", "ab,ab 1", "a,! 1", "a, a  1 "])
    add("idws2", [P("W", cid_rem("i", ID) >> pos), P("Root", cid_new("i") + cid_cap("i", ID) + opt(prd("W")) + while_(cid_rem("i", ID) >> if_(cm)) + pos + eof, ws=lit(" "))], "ab, ", 6, cid_decl("i", ID))
    add("ctrws", [P("Root", ctr_new("k") + ctr_push("k", while_one(a)) + lit("#") + ctr_pop("k", while_(a)) + kv + lit("x") + pos, ws=lit(" "))], "a#x ", 6, C)
    add("id6", [P("El", lit("<") >> (cid_cap("i", ID) + lit(">") + opt_list(peek(lit("<") + A_lower) >> rec("El")) + lit("</") + cid_rem("i", ID) + lit(">"))), P("Root", cid_new("i") + prd("El"))], "ab<>/", 3, cid_decl("i", ID), extra=["<a></a>", "<a><b></b></a>", "<a><b></b></b>", "<a><b></a></b>", "<a></b>", "<ab></ab>", "<ab></a>", "<a></ab>"], rnd=400)
    # variables created in a recursive production: every level has its own
    add("own", [P("El", lit("<") >> (cid_new("i") + cid_cap("i", ID) + lit(">") + opt_list(peek(lit("<") + A_lower) >> rec("El")) + lit("</") + cid_rem("i", ID) + lit(">"))), P("Root", prd("El") + pos)], "ab<>/", 3, cid_decl("i", ID), extra=["<a></a>", "<a><b></b></a>", "<a><b></b></b>", "<a><b></a></b>", "<a></b>", "<a><b><a></a></b><b></b></a>", "<a><b><a></a></b><b></b></b>"], rnd=600)
    add("depthctr", [P("El", lp >> (ctr_inc("k") + kv + while_(rec("El")) + rp + ctr_dec("k"))), P("Root", ctr_new("k") + prd("El") + kv)], "()", 9, C) if False else None
    add("depthctr", [P("El", lp >> (ctr_inc("k") + kv + opt_list(recb("El")) + rp + ctr_dec("k"))), P("Root", ctr_new("k") + prd("El") + kv)], "()x", 7, C)
    add("depthctr2", [P("El", lp >> (ctr_inc("k") + kv + try_(opt_list(recb("El")) + rp, find(sc)) + opt(sc) + ctr_dec("k"))), P("Root", ctr_new("k") + prd("El") + kv)], "()x;", 6, C)
    # recursion depth
    for dep in (1, 2, 3):
        add("rd%d" % dep, [P("El", lp >> (opt(recb("El")) + rp) | x), P("Root", prd("El") + pos)], "()x", 8, maxdep=dep, extra=["(" * k + "x" + ")" * k for k in range(8)])
        add("rdr%d" % dep, [P("El", lp >> (rec("El") + rp) | x), P("Root", prd("El") + pos)], "()x", 8, maxdep=dep, extra=["(" * k + "x" + ")" * k for k in range(8)])
        add("rdl%d" % dep, [P("El", b_opt_list(lp, rp, recb("El") | x, sep(cm))), P("Root", list_(prd("El"), sep(cm)) + pos)], "(),x", 6, maxdep=dep, rnd=1500, rlen=12, extra=["((x)),((x))", "(((x))),(x)", "((((x)))),(x)"])
        add("rdt%d" % dep, [P("El", lp >> (try_(opt(recb("El")) + x + rp, find(rp, sc)) + opt(rp | sc))), P("Root", opt_list(prd("El")) + pos)], "()x;", 6, maxdep=dep, rnd=1500, rlen=12)
        add("rds%d" % dep, [P("El", lp >> (opt_list(recb("El") | x) + rp)), P("Root", opt_list(prd("El")) + pos)], "()x", 8, maxdep=dep)
        add("rdm%d" % dep, [P("A", lp >> (opt(rec("B")) + rp) if False else lp >> (opt(recb("B")) + rp)), P("B", lit("[") >> (opt(recb("A")) + lit("]"))), P("Root", prd("A") + opt(prd("B")) + pos)], "()[]", 7, maxdep=dep)
    # exceeding the depth in a branch, recovering, continuing
    add("rdrec", [P("El", lp >> (try_(recb("El") | x, find(rp)) + rp)), P("Root", list_(prd("El"), sep(cm)) + pos)], "()x,", 6, maxdep=2, rnd=2500, rlen=14, extra=["(((x))),((x))", "((x)),(((x)))", "(((x))),(((x)))"])
    return [g for g in gs if g]
