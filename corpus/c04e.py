"""parse trees with operations: nodes and the pointers to them at every offset in a block of the node buffer (address sanitizer)"""
from gram import *
import random
FLAGS = ("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
MEM = 0
CAP = 3000
CAP_THOROUGH = 20000
A = A_digit
def L(k, n, ops, operand="atom"): return O(k, n, [oper(lit(x), "void") for x in ops.split()], operand)
def grammars():
    gs = []
    r = random.Random(4)
    def add(name, *prods, alpha, n, **kw): gs.append(G(name, list(prods), alpha=alpha, n=n, view="tree", maxdep=2000, **kw))
    ops = L("left", "sum", "+", L("prefix", "neg", "-", L("postfix", "f", "!")))
    x, op_, cl, comma, semi = lit("x"), lit("("), lit(")"), lit(","), lit(";")
    EX = ["1", "1+2", "-1", "1!", "-1!+2", "1+2+3"]
    W = [k for k in range(144, 172)] + [k for k in range(312, 342, 1)]
    # one expression, tokens up to the end of a block, then productions and expressions
    it = P("I", op_ >> opt(lit("y")) + cl)
    add("edge", PE("E", A, ops), it, P("Root", prd("E") + while_(x) + opt_list(prd("I")) + if_(comma >> prd("E")) + eof), alpha="1+(),", n=3,
        extra=[e + "x" * k + t for e in EX for k in W for t in ("()", "()(y)", ",1", ",1+2", "(),-1")])
    # expressions one after the other: every offset
    add("many", PE("E", A, ops), it, P("Root", list_(lit("e") >> prd("E") | prd("I") | x, sep(comma)) + eof), alpha="e1,+-x", n=3,
        extra=[",".join(r.choice(["e" + e for e in EX] + ["x", "()", "(y)"]) for _ in range(k)) for k in range(20, 90) for _ in (0, 1)] + [",".join(["e" + r.choice(EX)] * k) for k in range(20, 75)])
    # expressions in parentheses: containers in productions in containers
    add("paren", PE("E", (A | op_ >> rec("E") + cl), ops, max=400), P("Root", while_(x) + prd("E") + eof), alpha="1+(x)", n=4,
        extra=["x" * j + "(" * k + m + ")" * (k - z) for k in (1, 2, 20, 33, 34, 35, 40, 60) for j in (0, 1, 2, 3, 100, 120) for m in ("1", "1+2") for z in (0, 1)] + ["x" * k + "(1+(2!))+-3" for k in W])
    # cancelled: the memory is used again
    K = P("K", op_ >> prd("E") + cl)
    add("cancel", PE("E", A, ops), K, P("Root", while_(x) + opt_list(R("try", "dsl::try_(dsl::p<K>, dsl::find(LEXY_LIT(\";\")))", r=prd("K"), rec=find(semi)) | semi) + eof), alpha="(1+);", n=4,
        extra=["x" * k + t for k in W for t in ("(1;(1)", "(1+;(1+2)", "(-1+2!;(1+2);(1", "(1)(1;(1+2)(3")])
    # a container that stays empty, and an operator without operand
    add("fail", PE("E", (A | lit("y")), ops), it, P("Root", while_(x) + R("try", "dsl::try_(dsl::p<E>, dsl::find(LEXY_LIT(\";\")))", r=prd("E"), rec=find(semi)) + if_(semi >> opt_list(prd("I")))), alpha="1+-y;(", n=4,
        extra=["x" * k + t for k in W for t in (";()", "1+;()", "-;()()", "1+2;()", "-1+-;()", "?;()")])
    return gs
