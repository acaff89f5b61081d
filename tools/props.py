"""which suites decide which property"""
SUITES = {
 "C01": ["c01"],
 "C02": ["c02", "c02s"],
 "C03": ["c03"],
 "C04": ["c04", "c04e"],
 "C05": ["c05"],
 "C06": ["c06"],
 "C07": ["c07"],
 "C08": ["c08"],
 "C09": ["c09", "c09g"],
 "C10": ["c10", "c10r"],
 "C11": ["c11"],
 "C12": ["c12"],
 "C13": ["c13"],
 "C14": ["c14"],
 "C15": ["c15"],
 "C16": ["c16", "c16m"],
 "C17": ["c17", "c17p"],
 "C18": ["c18"],
 "C19": ["c19"],
 "C20": ["c20"],
 "C21": ["c21", "c21g"],
 "C22": ["c22", "c22g"],
 "C23": ["c23"],
 "C24": ["c24", "c24i"],
 "C25": ["c25"],
 "C26": ["c26", "c26g"],
}
LEVEL = {}
TECH_DEFAULT = "TLA+ machine of lexy's parsing semantics checked by TLC; behaviours of the real library (all inputs up to a bound and sampled longer ones, per grammar) validated against it state machine run by state machine run"
CALL = "TLA+ module of the documented result of each call, evaluated by TLC on every observed call of the real library (generated calls: exhaustive where finite, boundaries and seeded samples elsewhere)"
HIST = "TLA+ state machine of the objects, stepped by TLC through histories of operations recorded from the real library (every operation on all pairs of boundary states, and seeded random histories), comparing what each step showed"
TECH = {"C21": CALL + "; and the trees of the TLA+ parsing machine shown under every combination of options", "C22": CALL + "; and a report for every error the TLA+ parsing machine raises, on all inputs up to a bound of grammars of all kinds", "C26": HIST + "; and the TLA+ parsing machine run on the typed text, and on what might have followed each line", "C17": CALL.replace("generated calls: ", "calls against a system that fails and delivers pieces as scripted: "), "C20": CALL, "C24": HIST + "; and " + CALL, "C16": HIST + "; and " + CALL, "C18": CALL, "C08": CALL, "C09": CALL + "; and the TLA+ parsing machine for the rules on code points"}
NOTE_DEFAULT = ("Every observed run of the real library (match, validate, parse, parse_as_tree, trace) must be the behaviour of the TLA+ machine for that grammar and input, and TLC checks "
  "the machine's own invariants (proper nesting, tiling, bounds, restored context) on each. Exhaustive over all inputs up to the bound over each grammar's alphabet (quick: a fixed sample above a cap); "
  "trusts TLC, g++ and the rendering of results in the harness, and covers the grammars of the corpus only.")
NOTE = {}
ASSUMPTIONS = [
 "the specification in /verif/spec is the meaning of the documented rules; it is checked by TLC for internal soundness (nesting, tiling, bounds, restored context) on every run",
 "grammars and inputs outside the corpora are not explored; within a grammar all inputs over its alphabet up to a bound are (quick: sampled above a cap)",
 "g++ 13, x86-64, C++17 (C++20 where marked)",
]
