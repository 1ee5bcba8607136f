"""Mutation study of the checks: small changes to the library, one at a time, judged by the checks.

tools/mutants.py list OUT.json [FILE...]      every mutant of the library, as replacements of text
tools/mutants.py run OUT.json RESULT.jsonl [JOBS] [STRIDE OFFSET]
tools/mutants.py base                          what the checks record from the unchanged library

A check records traces from the real code; with the same seed they are the same as long as the code
does the same. So only traces that differ from those of the unchanged library are given to TLC.
Works on copies under /tmp/mut; nothing under /verif or /repo is written."""
import ast
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/mut"
REPO = "/repo"
PY = "/opt/venv/bin/python"

CHECKS = {
    "core.py": {"DataLims": "C22", "Elem": "C22 C20 C11", "HexaData.__init__": "C21 C17 C01", "HexaData.lims": "C22",
                "HexaData.check_connectivity": "C11", "HexaData.check_bcs_present": "C11", "HexaData.merge": "C12 C20",
                "HexaData.get_points": "C22", "HexaData.update_ncurv": "C20", "HexaData.offset_connectivity": "C14 C12 C15"},
    "meshtools.py": {"extrude": "C15 C20 C21", "extrude_refine": "C16", "extrude_mid": "C16", "edge_mid": "C22 C19 C16",
                     "edge_circle": "C22 C16", "delete_internal_bcs": "C13", "generate_internal_bcs": "C13",
                     "keep_elements": "C14 C20", "exponential_refinement_parameter": "C26", "rotate_2d": "C19",
                     "gen_box": "C17", "gen_circle": "C18", "map2D": "C19"},
    "simsonsuite.py": {"": "C10 C05"}, "vtksuite.py": {"": "C25"}, "dataset.py": {"": "C23 C24"},
    "neksuite/field.py": {"Header": "C03 C02 C01 C05", "read_header": "C02 C05 C04", "readnek": "C02 C04 C05 C01",
                          "writenek": "C03 C08 C01", "": "C03 C02 C05"},
    "neksuite/map.py": {"": "C09 C05"},
    "neksuite/mesh.py": {"readre2": "C06 C05", "writere2": "C06 C08", "readrea": "C07", "writerea": "C07 C08"},
}
SKIP = {"__repr__", "get_logger", "<module>"}


def checks(fn, func):
    t = CHECKS.get(fn, {})
    for k in (func, func.split(".")[0], ""):
        if k in t:
            return t[k].split()
    return []


# ------------------------------------------------------------------ mutants
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
CMPTXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in",
          ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"),
       ast.Mod: ("%", "*"), ast.Pow: ("**", "*")}


def offsets(src):
    o = [0]
    for l in src.splitlines(keepends=True):
        o.append(o[-1] + len(l.encode()))
    return o


def mutants(fn):
    path = os.path.join(REPO, "src/pymech", fn)
    with open(path) as f:
        src = f.read()
    raw, off = src.encode(), offsets(src)
    tree = ast.parse(src)
    out = []

    def at(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(func, n, a, b, new, kind):
        out.append(dict(file=fn, func=func, line=n.lineno, a=a, b=b, old=raw[a:b].decode(), new=new, kind=kind))

    def between(func, n, l, r, table_old, new, kind):
        a, b = at(l)[1], at(r)[0]
        t = raw[a:b].decode()
        i = t.find(table_old)
        if i >= 0 and "\n#" not in t:
            add(func, n, a + i, a + i + len(table_old), new, kind)

    def visit(n, func, stmtlist=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            f2 = n.name if func == "<module>" else func + "." + n.name
            if n.name in SKIP:
                return
            body = n.body
            for d in getattr(getattr(n, "args", None), "defaults", []):
                visit(d, f2)
            for c in body:
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant) and isinstance(c.value.value, str):
                    continue
                visit(c, f2)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = ast.unparse(n.value.func)
            if t.startswith(("logger", "print", "warn")):
                return
        if isinstance(n, ast.Raise):
            a, b = at(n)
            add(func, n, a, b, "pass", "no raise")
            return
        if isinstance(n, ast.JoinedStr):
            return
        if func != "<module>":
            if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                a, b = at(n)
                add(func, n, a, b, "pass", "drop")
            if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                between(func, n, n.target, n.value, BIN[type(n.op)][0] + "=", BIN[type(n.op)][1] + "=", "aug")
            if isinstance(n, ast.If) or isinstance(n, ast.While):
                a, b = at(n.test)
                if isinstance(n, ast.If):
                    add(func, n, a, b, "True", "cond")
                add(func, n, a, b, "False", "cond")
            if isinstance(n, ast.Break):
                a, b = at(n)
                add(func, n, a, b, "continue", "break")
            if isinstance(n, ast.Continue):
                a, b = at(n)
                add(func, n, a, b, "pass", "continue")
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = type(n.ops[0])
                if o in CMP:
                    between(func, n, n.left, n.comparators[0], CMPTXT[o], CMP[o], "cmp")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                between(func, n, n.left, n.right, *BIN[type(n.op)], "op")
            if isinstance(n, ast.BoolOp):
                t = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                between(func, n, n.values[0], n.values[1], *t, "bool")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                a, b = at(n)
                add(func, n, a, b, raw[at(n.operand)[0]:at(n.operand)[1]].decode(), "unary")
            if isinstance(n, ast.Constant):
                a, b = at(n)
                v = n.value
                if isinstance(v, bool):
                    add(func, n, a, b, str(not v), "bool")
                elif isinstance(v, int):
                    add(func, n, a, b, str(v + 1), "int")
                    if v > 0:
                        add(func, n, a, b, str(v - 1), "int")
                elif isinstance(v, float):
                    add(func, n, a, b, repr(v * 1.5 if v else 0.5), "float")
                elif isinstance(v, (str, bytes)) and len(v) <= 12:
                    add(func, n, a, b, repr(v[:-1] + type(v)(b"?" if isinstance(v, bytes) else "?") if v else type(v)(b"?" if isinstance(v, bytes) else "?")), "str")
        for c in ast.iter_child_nodes(n):
            visit(c, func)

    visit(tree, "<module>")
    for c in tree.body:
        pass
    good = []
    for m in out:
        t = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            compile(t, fn, "exec")
        except SyntaxError:
            continue
        m["checks"] = checks(fn, m["func"])
        if m["checks"]:
            good.append(m)
    return good


# ------------------------------------------------------------------ running
def child(pid, seed, base):
    """in a process with PYMECH_REPO set: run one check, judging only traces that are not in the base"""
    sys.path.insert(0, VERIF)
    from harness import core
    book = os.path.join(WORK, "base", f"{pid}-{seed}.pkl")
    known = set()
    if not base:
        with open(book, "rb") as f:
            known = pickle.load(f)
    judged = [0]

    def digest(t, tab):
        return hashlib.sha1(json.dumps([t["ev"], tab if len(str(tab)) < 10 ** 6 else 0], sort_keys=True, default=str).encode()).digest()

    validate, generate = core.validate, core.generate

    def val(ctx, module, traces, tab=None, *a, **kw):
        if kw.get("label") in ("window", "big"):
            return
        h = [(digest(t, tab), t) for t in traces]
        if base:
            known.update(x for x, _ in h)
            return
        new = [t for x, t in h if x not in known]
        judged[0] += len(new)
        if new:
            step = max(1, len(new) // 12)
            validate(ctx, module, new[::step][:14], tab, jobs=1, **{k: v for k, v in kw.items() if k != "jobs"})
            if ctx.violations:
                raise core.MachineryError("enough")

    def gen(ctx, *a, **kw):
        k = hashlib.sha1(repr((a, sorted(kw.items()))).encode()).hexdigest()
        fn = os.path.join(WORK, "gen", k)
        if os.path.exists(fn):
            with open(fn, "rb") as f:
                return pickle.load(f)
        r = generate(ctx, *a, **kw)
        with open(fn, "wb") as f:
            pickle.dump(r, f)
        return r

    core.model_check = lambda *a, **k: None
    core.validate, core.generate = val, gen
    core.write_evidence = lambda *a, **k: None
    core.VERIF = os.path.join(WORK, "out", str(os.getpid()))
    os.makedirs(core.VERIF, exist_ok=True)
    from harness import run
    run.known_findings = lambda p: []
    rc = run.main([pid])
    shutil.rmtree(core.VERIF, ignore_errors=True)
    if base:
        with open(book, "wb") as f:
            pickle.dump(known, f)
    print("JUDGED", judged[0])
    sys.stdout.flush()
    os._exit(rc)


def start(pid, repo, seed, base=False, timeout=400):
    env = dict(os.environ, PYMECH_REPO=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=VERIF,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_SEED=str(seed))
    try:
        p = subprocess.run([PY, os.path.abspath(__file__), "child", pid, str(seed), "1" if base else "0"],
                           env=env, capture_output=True, text=True, timeout=timeout, cwd=VERIF)
    except subprocess.TimeoutExpired:
        return "timeout", 0, ""
    n = [l for l in p.stdout.splitlines() if l.startswith("JUDGED")]
    return p.returncode, int(n[0].split()[1]) if n else -1, (p.stdout + p.stderr)[-1500:]


def run(ms, result, jobs):
    free = []
    for i in range(jobs):
        d = os.path.join(WORK, f"r{i}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
        free.append(d)
    done = set()
    if os.path.exists(result):
        with open(result) as f:
            done = {json.loads(l)["n"] for l in f}

    def one(n):
        m = ms[n]
        d = free.pop()
        path = os.path.join(d, "src/pymech", m["file"])
        with open(os.path.join(REPO, "src/pymech", m["file"]), "rb") as f:
            raw = f.read()
        out = []
        try:
            with open(path, "wb") as f:
                f.write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
            for c in m["checks"]:
                rc, k, text = start(c, d, 1)
                out.append([c, rc, k])
                if rc not in (0, 1):
                    out[-1].append(text)
                if rc in (1, "timeout"):
                    break
        finally:
            with open(path, "wb") as f:
                f.write(raw)
            free.append(d)
        with open(result, "a") as f:
            f.write(json.dumps(dict(n=n, m=m, out=out)) + "\n")

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, [n for n in range(len(ms)) if n not in done]))


def main(a):
    for d in ("base", "gen", "out"):
        os.makedirs(os.path.join(WORK, d), exist_ok=True)
    if a[0] == "child":
        child(a[1], int(a[2]), a[3] == "1")
    elif a[0] == "list":
        ms = [m for fn in (a[2:] or CHECKS) for m in mutants(fn)]
        with open(a[1], "w") as f:
            json.dump(ms, f)
        print(len(ms), "mutants")
    elif a[0] == "base":
        ids = a[1:] or sorted({c for t in CHECKS.values() for v in t.values() for c in v.split()})
        with ThreadPoolExecutor(2) as ex:
            for c, r in zip(ids, ex.map(lambda c: start(c, REPO, 1, True), ids)):
                print(c, r[0], r[2][-200:] if r[0] else "")
    elif a[0] == "run":
        with open(a[1]) as f:
            ms = json.load(f)
        if len(a) > 4:
            ms = ms[int(a[5])::int(a[4])]
        run(ms, a[2], int(a[3]) if len(a) > 3 else 6)


main(sys.argv[1:])
