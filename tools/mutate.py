"""development: random mutants of the headers, each judged by the checks of the properties anchored there; prints the survivors.
usage: mutate.py SEED PER_HEADER JOBS [header regex]"""
import os, re, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
MAP = {
 "dsl/(branch|sequence|choice|option|return|if|production|base|token)": "C01", "grammar": "C01 C02", "dsl/loop": "C01", "dsl/list": "C01 C03", "dsl/(separator|terminator|brackets|recover|error)": "C03",
 "dsl/(parse_as|subgrammar|position|capture|effect|debug)": "C02", "action/(trace|parse|match|validate|base|parse_as_tree)": "C02", "error": "C02 C22", "token": "C02", "dsl/parse_tree_node": "C04 C24",
 "dsl/whitespace": "C05", "dsl/(literal|case_folding|follow)": "C06", "_detail/(string_view|nttp_string|integer_sequence)": "C06 C02", "dsl/(identifier|symbol)": "C07",
 "dsl/(ascii|char_class|unicode)": "C08", "_detail/swar": "C08 C16", "dsl/byte": "C19", "_detail/code_point": "C09", "code_point": "C09", "dsl/(code_point|bom)": "C09", "dsl/(digit|integer|sign)": "C10", "dsl/(repeat|times)": "C10 C01",
 "dsl/delimited": "C11", "dsl/(expression|operator)": "C12", "dsl/context": "C13", "dsl/(recursi|lookahead|until|eof|any|newline|peek)": "C14",
 "input/(base|string_input|range_input|lexeme_input|argv_input)": "C15", "input/buffer": "C16 C15", "encoding": "C15 C16", "_detail/(memory_resource|buffer_builder|iterator)": "C16 C17 C26", "input/file": "C17", "file.cpp": "C17",
 "input_location": "C18", "dsl/bits": "C19", "callback": "C20", "_detail/(invoke|tuple|lazy_init|stateless_lambda)": "C20 C01", "visualize": "C21 C22", "report_error": "C22", "(scan)": "C23", "parse_tree.hpp|input/parse_tree_input": "C24 C04", "dsl/(combination|flags|member)": "C25", "shell": "C26", "lexeme": "C15 C20",
}
def claims(f):
    r = f.replace("include/lexy/", "").replace("include/lexy_ext/", "").replace("src/input/", "")
    best = [v for k, v in MAP.items() if re.match(k, r)]
    if best: return best[0].split()
    best = [v for k, v in MAP.items() if re.search(k, r)]
    return best[0].split() if best else ["C01"]
RULES = [(r"(?<![=!<>])==(?!=)", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"),
 (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+(\w)", r"\1"), (r"\bif \((?!constexpr)(.*)\)$", r"if (!(\1))"), (r"\b([1-9])u?\b", lambda m: str(int(m.group(1)) + 1)), (r" \+ ", " - "), (r" \+= ", " = "), (r"\bbegin\b", "end"), (r"\bend\b", "begin"),
 (r"^(\s+)(?!return|using|auto|static|constexpr|friend|template|typename|struct|class|break|continue|case|goto|else|const|union|bool|void|std::size_t)[\w(*][^=]*[^=!<>]?=?.*\);$", r"\1;"), (r"^(\s+)(\w[\w.>\-_]* = .*;)$", r"\1;"), (r"^(\s+)(\+\+.*|.*\+\+|--.*);$", r"\1;")]
SKIP = re.compile(r"^\s*(//|#|template|static_assert|LEXY_ASSERT|LEXY_PRECOND|using |friend|LEXY_REQUIRE|typename|namespace|struct |class |enum )|operator|is_same_v|std::is_|enable_if|noexcept\(|LEXY_DEPRECATED|delete;|default;")
def mutants(path, text, rng):
    out, depth = [], 0
    for n, l in enumerate(text.split("\n")):
        code = l.split("//")[0].rstrip()
        if SKIP.search(code) or not code.strip(): continue
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():] if isinstance(rep, str) else code[:m.start()] + rep(m) + code[m.end():]
                if new != code: out.append((n, l, new))
    return out
def go(a):
    repo = os.environ.get("VERIF_REPO_SRC", "/repo")
    k, f, n, old, new = a
    d = "/tmp/mutwork/m%d" % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", repo + "/include", repo + "/src", d])
    p = os.path.join(d, f); t = open(p).read().split("\n")
    t[n] = new; open(p, "w").write("\n".join(t))
    res = "SURVIVED"
    for c in claims(f):
        try: r = subprocess.run(["python3", os.path.join(HERE, "check.py"), c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), timeout=800)
        except subprocess.TimeoutExpired: res = "timeout " + c; break
        o = r.stdout + r.stderr
        if "does not compile" in o: res = "invalid"; break
        if r.returncode == 1 and "VIOLATION" in o: res = "killed " + c; break
        if r.returncode != 0: res = "error %s %s" % (c, o[-300:])
    shutil.rmtree(d, ignore_errors=True)
    return "%s | %s:%d | %s -> %s" % (res, f, n + 1, old.strip(), new.strip())
if __name__ == "__main__":
    seed, per, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    files = []
    for b, _, fs in os.walk("/repo/include"):
        for f in fs:
            q = os.path.relpath(os.path.join(b, f), "/repo")
            if f.endswith(".hpp") and "unicode_database" not in f and not re.search(r"config|type_name|assert|std\.hpp|detect|compiler_explorer|_detail/any", q): files.append(q)
    files.append("src/input/file.cpp")
    if len(sys.argv) > 4: files = [f for f in files if re.search(sys.argv[4], f)]
    jobs_ = []
    for f in sorted(files):
        ms = mutants(f, open("/repo/" + f).read(), rng)
        n = max(1, min(len(ms), per * max(1, len(ms) // 60)))
        jobs_ += [(f,) + m for m in rng.sample(ms, min(n, len(ms)))]
    rng.shuffle(jobs_)
    print(len(jobs_), "mutants", flush=True)
    with ThreadPoolExecutor(jobs) as ex:
        for x in ex.map(go, [(k,) + j for k, j in enumerate(jobs_)]): print(x, flush=True)
