"""the same characters from every kind of input: grammars of the other corpora, each run on all kinds of inputs under a memory checker"""
import importlib
from gram import *
FLAGS = ("CXX=clang++", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")
MEM = 0
PER_TU = 1
CAP = 9000
PICK = {
 "c01": "choice3 while2 list3t rec1 until1 termseq",
 "c02": "show_utf8 show_utf16 escprod",
 "c03": "tlist3 find2 reco2 brk1",
 "c05": "ws2 ws8 wsrun_comm_utf8 wsrun_two_utf8 wsrun_graph_utf8 wsrun_anysp_utf16",
 "c06": "lit_utf8_8 lit_utf8_17 lit_utf16_9 lit_utf32_4 lit_default_7 seq_utf8 set_utf8 kw_utf8 set_utf16 set_default",
 "c07": "idlong_utf8 idlong_utf16 idswar_word idswar_minus resall symucf_utf8 symid_utf16 symbig",
 "c09g": "cplist_utf8 cplist_utf16 cplist_utf32 cpdel_utf8 litcp6_utf8 bom_u8l",
 "c10": "digsz_10 digs_16 nds_10 i_int_10 i_longlong_16",
 "c11": "d_utf8_print d_utf16_print d_utf8_union esc1 escsym_utf8 dlim_utf8 dclosetok d_ascii_char d_default_char",
 "c12": "math tern",
 "c13": "id1_utf8 ctr2 rd1",
 "c14": "until_utf8 untile_utf8 untiln_utf8 until_utf16 until_utf32 until_ascii until_default look3 eol_utf8 any2",
 "c25": "c4 pws",
}
def grammars():
    gs = []
    for m, names in PICK.items():
        have = {g.name: g for g in importlib.import_module(m).grammars()}
        for n in names.split():
            g = have[n]
            if g.topts: g.topts = []
            g.name = m + "_" + n
            g.view = "inputs"
            gs.append(g)
    # the separator of arguments
    sp = Cls("dsl::argv_separator", S((0, 0)), "argv-separator", "literal")
    no = Cls("dsl::argv_separator", {"k": "set", "rs": []}, "argv-separator", "literal")
    ab = lset(lit("a"), lit("b"), lit("-b"))
    for n, s, v in (("argv", sp, "argv"), ("noargv", no, "")):
        for k, r in (("list", list_(cap(ab), sep(s)) + pos + eof), ("seq", cap(lit("a")) + s + opt(cap(lit("b")) >> s) + cap(lit("a")) + eof),
                     ("opt", opt(s >> pos) + while_(lit("a")) + if_(s >> lit("b")) + pos), ("until", cap(until_eof(s)) + pos + opt(cap(until(s))) if 0 else cap(until_eof(s)) + pos)):
            gs.append(G("%s_%s" % (n, k), [P("Root", r)], alpha="ab-\0", n=4 if v == "argv" else 3, rnd=150, rlen=14, view=v))
        gs.append(G(n + "_ws", [P("Root", list_(cap(ab)) + eof, ws=s)], alpha="ab\0", n=5 if v == "argv" else 3, rnd=150, rlen=14, view=v))
    return gs
