#!/opt/venv/bin/python
"""mutate.py [FILE...]: small changes of every frds source file, each tried against the checks of its properties; prints the ones nothing notices.

Works in scratch copies of /repo and of /verif under /tmp/mut and appends to /tmp/mut/results.jsonl (already tried mutants are skipped)."""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
PAR = int(os.environ.get("PAR", "4"))
JOBS = os.environ.get("JOBS", "2")
A, M, MM, I = "algorithms/", "measures/", "measures/modified_merton/", "algorithms/isolation_forest/"
CHECKS = {
    A + "_garch.py": "C03 C01 C02 C04 C08 C10", A + "_mgarch.py": "C06 C07 C05 C08 C10", A + "utils/garch.hpp": "C01 C02 C03", A + "utils/mgarch.hpp": "C06 C07",
    A + "utils/utils_module.cpp": "C01 C02 C06 C29 C33", I + "__init__.py": "C14 C13", I + "IsolationForest.hpp": "C14 C13 C12", I + "IsolationForest.cpp": "C14 C13 C12 C29", I + "iforest_module.cpp": "C14 C13 C29 C33",
    M + "measures_module.cpp": "C09 C29 C33", M + "lrmes.hpp": "C09", M + "_long_run_mes.py": "C09 C10 C08", M + "_srisk.py": "C11", M + "spread.py": "C15 C16", M + "price_impact.py": "C16", M + "lob_slope.py": "C17",
    M + "_kyle_lambda.py": "C18", M + "_probability_of_informed_trading.py": "C19 C20", M + "_marginal_expected_shortfall.py": "C21", M + "_systemic_expected_shortfall.py": "C22", M + "_absorption_ratio.py": "C23",
    M + "_option_price.py": "C24", M + "_contingent_claim_analysis.py": "C25", M + "_distress_insurance_premium.py": "C26", M + "_z_score.py": "C27", MM + "loan_payoff.py": "C30", MM + "fftsmooth.py": "C30",
    MM + "find_face_value_indiv.py": "C30", MM + "merton_solution.py": "C30", MM + "mod_merton_computation.py": "C31", MM + "mod_single_cohort_computation.py": "C31", MM + "mod_merton_create_lookup.py": "C31",
    MM + "mod_single_merton_create_lookup.py": "C31", "datasets/_stocks.py": "C32",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.MatMult: ast.Mult}
CALL = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "mean": "sum", "sum": "mean", "nanmean": "mean", "std": "var", "argmin": "argmax", "argmax": "argmin", "zeros": "ones", "ones": "zeros", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor"}
DROP = {"abs", "sqrt", "exp", "log", "copy", "float", "int", "asarray", "array", "ascontiguousarray", "real", "squeeze", "conj", "round", "diag", "transpose", "isfinite"}


def python(text):
    """(line, what, new text) for every mutant."""
    tree = ast.parse(text)
    lines = text.splitlines(True)
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()))
    raw = text.encode()

    def span(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def put(n, new):
        a, b = span(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip |= set(map(id, ast.walk(n.body[0])))
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                skip |= set(map(id, ast.walk(getattr(n, f))))
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
            skip |= set(map(id, ast.walk(n)))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue

        def var(change):
            m = copy.deepcopy(n)
            r = change(m)
            return "(%s)" % ast.unparse(m if r is None else r)

        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                yield n.lineno, "compare", put(n, var(lambda m: m.ops.__setitem__(i, CMP[type(o)]())))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield n.lineno, "operator", put(n, var(lambda m: setattr(m, "op", BIN[type(n.op)]())))
        elif isinstance(n, ast.BoolOp):
            yield n.lineno, "and/or", put(n, var(lambda m: setattr(m, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            for i in range(len(n.values)):
                yield n.lineno, "and/or without %d" % i, put(n, var(lambda m: ast.BoolOp(m.op, m.values[:i] + m.values[i + 1:]) if len(m.values) > 2 else m.values[1 - i]))
        elif isinstance(n, ast.UnaryOp):
            yield n.lineno, "unary", put(n, "(%s)" % ast.unparse(n.operand))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float, bool)):
            if isinstance(n.value, bool):
                yield n.lineno, "constant", put(n, str(not n.value))
            elif isinstance(n.value, int):
                yield n.lineno, "constant", put(n, str(n.value + 1))
            else:
                yield n.lineno, "constant", put(n, repr(n.value * 1.05 if n.value else 1e-3))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.lineno, "condition", put(n.test, "not (%s)" % ast.unparse(n.test))
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if name in CALL:
                yield n.lineno, name, put(n, var(lambda m: setattr(m.func, "attr" if isinstance(f, ast.Attribute) else "id", CALL[name])))
            if name in DROP and n.args:
                yield n.lineno, "without " + name, put(n, "(%s)" % ast.unparse(n.args[0]))
            elif name in DROP and isinstance(f, ast.Attribute) and not n.args:
                yield n.lineno, "without " + name, put(n, "(%s)" % ast.unparse(f.value))
            if len(n.args) > 1:
                for i in range(len(n.args) - 1):
                    yield n.lineno, "swap arguments %d" % i, put(n, var(lambda m: m.args.__setitem__(slice(i, i + 2), m.args[i:i + 2][::-1])))
            for k in range(len(n.keywords)):
                yield n.lineno, "without keyword " + str(n.keywords[k].arg), put(n, var(lambda m: m.keywords.pop(k) and None))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert, ast.Break, ast.Continue, ast.Delete)):
            yield n.lineno, "deleted", put(n, "pass")
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            yield n.lineno, "augmented", put(n, ast.unparse(m))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and re.search(r"\D[12]$", n.id):
            yield n.lineno, "other of two", put(n, n.id[:-1] + "21"[int(n.id[-1]) - 1])


TOK = [(r"(?<![<\-+=!>])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![\->=<])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w)\] ])\+(?![+=])(?<!\+)", "-"), (r"(?<=[\w)\]] )-(?![\->=])", "+"),
       (r"(?<=[\w)\]] )\*(?= )", "/"), (r"(?<=[\w)\]] )/(?= )", "*"), (r"\+=", "-="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"(?<![\w.])(\d+)(?![\w.])", None), (r"(?<![\w.])(\d+\.\d+)", None), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"!(?![=])", "")]


def cpp(text):
    lines = text.split("\n")
    block = False
    for i, l in enumerate(lines):
        s = l.strip()
        if block or s.startswith("/*"):
            block = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "using", "template")):
            continue
        code = l.split("//")[0]
        quoted = [m.span() for m in re.finditer(r'"[^"]*"', code)]
        for pat, new in TOK:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in quoted):
                    continue
                for r in ([new] if new is not None else [str(int(m.group(0)) + 1)] if "." not in m.group(0) else [repr(float(m.group(0)) * 1.05 or 1e-3)]):
                    yield i + 1, "%s -> %s @%d" % (m.group(0), r, m.start()), "\n".join(lines[:i] + [l[:m.start()] + r + l[m.end():]] + lines[i + 1:])
        if re.match(r"^[\w:\[\]\.\->\*\(\), +/]+(\(.*\)|=.*|\+\+|--);$", s) and not re.match(r"^(const |auto |double |int |size_t |std::|PyObject|npy_|return|Py_ssize)", s):
            yield i + 1, "deleted", "\n".join(lines[:i] + [l[:len(l) - len(l.lstrip())] + ";"] + lines[i + 1:])


def worker(k, q, done, lock):
    d = os.path.join(W, "w%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".build", ".git", "seeded", "replays", "evidence"))
    src = d + "/repo/src/frds/"
    env = dict(os.environ, FRDS_REPO=d + "/repo", MC_OUT=d + "/out", MC_JOBS=JOBS)
    subprocess.run(["./run.py", "setup"], cwd=d + "/verif", env=env, check=True, capture_output=True)
    root = d + "/verif/.build"
    clean = [x for x in os.listdir(root) if os.path.isdir(root + "/" + x)][0]
    while True:
        try:
            f, line, what, text = q.get_nowait()
        except queue.Empty:
            break
        orig = open(src + f, newline="").read()
        r = {"file": f, "line": line, "what": what, "by": None, "old": orig.splitlines()[line - 1].strip()}
        new = [b for a, b in zip(orig.splitlines(), text.splitlines()) if a.strip() != b.strip()]
        r["new"] = new[0].strip() if new else ""
        open(src + f, "w", newline="").write(text)
        try:
            if f.endswith(".py"):
                h = subprocess.run([sys.executable, "-c", "from mc import tree; print(tree.source_hash())"], cwd=d + "/verif", env=env, capture_output=True, text=True).stdout.strip()
                os.makedirs(root + "/" + h)
                for v in ("native", "pure", "sched", "asan"):
                    shutil.copytree(root + "/" + clean + "/" + v, root + "/" + h + "/" + v)
                    shutil.copyfile(src + f, root + "/" + h + "/" + v + "/frds/" + f)
                open(root + "/" + h + "/ok", "w").close()
            for c in CHECKS[f].split():
                try:
                    p = subprocess.run(["./run.py", c, "--tier", "quick"], cwd=d + "/verif", env=env, capture_output=True, text=True, errors="replace", timeout=1500)
                except subprocess.TimeoutExpired:
                    r["by"] = c + " timeout"
                    break
                if p.returncode:
                    r["by"] = c if p.returncode == 1 and "VIOLATION" in p.stdout else "%s rc=%d %s" % (c, p.returncode, p.stderr.strip()[-150:])
                    break
        finally:
            open(src + f, "w", newline="").write(orig)
            for x in os.listdir(root):
                if x != clean and os.path.isdir(root + "/" + x):
                    shutil.rmtree(root + "/" + x, ignore_errors=True)
            shutil.rmtree(d + "/out", ignore_errors=True)
        with lock:
            with open(W + "/results.jsonl", "a") as o:
                o.write(json.dumps(r) + "\n")
            print(r["by"] or "SURVIVED", f, line, what, "|", r["old"], "=>", r["new"], flush=True)


def main():
    os.makedirs(W, exist_ok=True)
    seen = set()
    if os.path.exists(W + "/results.jsonl"):
        for l in open(W + "/results.jsonl"):
            r = json.loads(l)
            seen.add((r["file"], r["line"], r["what"], r["new"]))
    q = queue.Queue()
    for f in sys.argv[1:] or CHECKS:
        text = open("/repo/src/frds/" + f, newline="").read()
        got = set()
        for line, what, new in (python if f.endswith(".py") else cpp)(text):
            if new == text or new in got:
                continue
            if f.endswith(".py"):
                try:
                    ast.parse(new)
                except SyntaxError:
                    continue
            got.add(new)
            d = [b for a, b in zip(text.splitlines(), new.splitlines()) if a.strip() != b.strip()]
            if (f, line, what, d[0].strip() if d else "") not in seen:
                q.put((f, line, what, new))
    print(q.qsize(), "mutants", flush=True)
    if os.environ.get("COUNT"):
        return
    lock = threading.Lock()
    T = [threading.Thread(target=worker, args=(k, q, None, lock)) for k in range(PAR)]
    for t in T:
        t.start()
    for t in T:
        t.join()


if __name__ == "__main__":
    main()
