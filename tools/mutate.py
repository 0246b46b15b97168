"""Development helper: small random changes of the code, to look for what the checks do not see.

`mutate.py OUT N SEED [FILE...]` makes N mutants of the package (or of the files given) in scratch
copies of a repository, runs on each the checks anchored to the changed file until one reports a
violation, and writes one JSON line per mutant to OUT.  Survivors are then read by hand: a change
that means the same, a change outside what is claimed, or a gap.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUTATE_SRC", "/repo")
SCRATCH = "/tmp/mut"
WORKERS = int(os.environ.get("MUTATE_WORKERS", "3"))
SKIP = re.compile(r"print|__repr__|__str__|^test_|progress|log_snapshot|update_log")

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
NAMES = {"min": "max", "max": "min", "sum": "mean", "mean": "sum", "minimum": "maximum", "maximum": "minimum", "any": "all", "all": "any",
         "ones": "zeros", "zeros": "ones", "floor": "ceil", "ceil": "floor", "exp": "expm1", "log": "log1p", "std": "var", "var": "std",
         "argmin": "argmax", "argmax": "argmin", "vstack": "hstack", "hstack": "vstack", "upper": "lower", "lower": "upper"}


class Sites(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out, self.stack = text, [], []
        self.starts = [0]
        for l in text.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.raw = text.encode()

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, kind):
        if self.stack and not any(SKIP.search(f) for f in self.stack):
            a, b = self.span(n)
            self.out.append((a, b, new, kind, ".".join(self.stack), n.lineno))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_Raise(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            t = type(n.ops[0])
            l, r = self.seg(n.left), self.seg(n.comparators[0])
            if t in CMP:
                self.add(n, f"({l} {CMP[t]} {r})", "compare")
            elif t in (ast.Is, ast.IsNot):
                self.add(n, f"({l} {'is' if t is ast.IsNot else 'is not'} {r})", "none")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        t = type(n.op)
        if t in OPS:
            self.add(n, f"(({self.seg(n.left)}) {OPS[t]} ({self.seg(n.right)}))", "arith")
            if t in (ast.Add, ast.Sub):
                self.add(n, f"({self.seg(n.left)})", "drop-term")
            if t in (ast.Mult, ast.Div):
                self.add(n, f"({self.seg(n.left)})", "drop-factor")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "bool")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "int")
            if v > 0:
                self.add(n, str(v - 1), "int")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.25 if v else 0.5), "float")

    def visit_BoolOp(self, n):
        j = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + j.join(f"({self.seg(v)})" for v in n.values) + ")", "boolop")
        self.add(n, f"({self.seg(n.values[0])})", "boolop")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, f"({self.seg(n.operand)})", "unary")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, f"(not ({self.seg(n.test)}))", "if")
        self.add(n.test, "False", "if-false")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.seg(n.func)
        if f.startswith(("print", "warnings", "logger", "self.update_log", "isinstance", "super")):
            return
        last = f.split(".")[-1]
        if last in NAMES and f != last or f in ("min", "max"):
            a, b = self.span(n.func)
            self.add(n.func, f[:len(f) - len(last)] + NAMES[last], "name")
        if last in ("copy", "clip", "abs", "sqrt", "maximum", "minimum", "reshape", "to_np", "deepcopy", "asarray", "flatten", "sort") and n.args:
            self.add(n, f"({self.seg(n.args[0])})", "unwrap")
        for k in n.keywords:
            if k.arg in ("axis", "ddof", "keepdims", "replace", "pairwise", "convert_in", "convert_out") and isinstance(k.value, ast.Constant):
                v = k.value.value
                if isinstance(v, bool):
                    self.add(k.value, str(not v), "kw")
                elif v in (0, 1):
                    self.add(k.value, str(1 - v), "kw")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            lo, hi = (self.seg(q) if q else "" for q in (s.lower, s.upper))
            if lo or hi:
                v = self.seg(n.value)
                if hi:
                    self.add(n, f"{v}[{lo}:({hi}) - 1]", "slice")
                if lo:
                    self.add(n, f"{v}[({lo}) + 1:{hi}]", "slice")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            f = self.seg(n.value.func)
            if not f.startswith(("print", "warnings", "logger", "self.update_log", "self.log")):
                self.add(n, "pass", "drop-call")
            self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop-assign")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "drop-assign")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            a, b = (self.seg(e) for e in n.value.elts)
            self.add(n.value, f"{b}, {a}", "swap-return")
        self.generic_visit(n)


CACHE = '''
# ---- development only: results of TLC runs that do not depend on the code
import hashlib, pickle
_Tlc = Tlc
class Tlc(_Tlc):
    def __init__(self, module, consts=None, invariants=(), env=None, **k):
        self.key = None
        if env is None:
            q = {a: b for a, b in k.items() if a != "scratch"}
            h = hashlib.md5((open(os.path.join(SPEC, module + ".tla")).read() + repr((module, consts, invariants, sorted(q.items(), key=str)))).encode()).hexdigest()
            self.key = "/tmp/mut/cache/" + h
            if os.path.exists(self.key):
                self.hit = True
                return
        self.hit = False
        super().__init__(module, consts, invariants, env=env, **k)
    def result(self):
        if self.hit:
            return pickle.load(open(self.key, "rb"))
        r = super().result()
        if self.key:
            os.makedirs("/tmp/mut/cache", exist_ok=True)
            t = self.key + f".{os.getpid()}"
            pickle.dump(r, open(t, "wb"))
            os.replace(t, self.key)
        return r

'''


def sites(path):
    s = Sites(open(os.path.join(SRC, path)).read())
    s.visit(ast.parse(s.text))
    return s


def worker_dir(w):
    d = os.path.join(SCRATCH, f"w{w}")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SRC, d + "/repo", symlinks=True)
    os.makedirs(d + "/verif")
    for n in ("spec", "harness"):
        shutil.copytree(os.path.join(ROOT, n), os.path.join(d, "verif", n))
    shutil.copy(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), d + "/verif")
    for f in ("harness/lib.py", "harness/drivers/base.py"):
        p = os.path.join(d, "verif", f)
        s = open(p).read().replace('"/repo"', f'"{d}/repo"').replace('"/repo/"', f'"{d}/repo/"')
        if f.endswith("lib.py"):
            a, b = s.split("# ------------------------------------------------------------- drivers", 1)
            s = a + CACHE + b
        open(p, "w").write(s)
    return d


def main(out, n, seed, files):
    rng = random.Random(int(seed))
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    anchored = {}
    for p in props:
        for f in p["anchors"]["files"]:
            anchored.setdefault(f, []).append(p["id"])
    pool = []
    for f in files or sorted(anchored):
        if f.endswith(".py") and os.path.exists(os.path.join(SRC, f)):
            s = sites(f)
            pool += [(f, t) for t in s.out]
    rng.shuffle(pool)
    # spread over functions
    seen, first, rest = {}, [], []
    for f, t in pool:
        k = (f, t[4])
        seen[k] = seen.get(k, 0) + 1
        (first if seen[k] <= 2 else rest).append((f, t))
    jobs = (first + rest)[:int(n)]
    print(len(pool), "sites", len(jobs), "mutants", flush=True)
    last, lock = {}, threading.Lock()
    q = list(range(WORKERS))
    dirs = {w: worker_dir(w) for w in q}
    fo = open(out, "a")

    def go(job):
        f, (a, b, new, kind, where, line) = job
        with lock:
            w = q.pop()
        d = dirs[w]
        p = os.path.join(d, "repo", f)
        src = open(os.path.join(SRC, f), "rb").read()
        old = src[a:b].decode()
        r = dict(file=f, line=line, where=where, kind=kind, old=old[:200], new=new[:200], verdict="survived", by=None)
        try:
            mut = src[:a] + new.encode() + src[b:]
            try:
                ast.parse(mut.decode())
            except SyntaxError:
                r["verdict"] = "syntax"
                return r
            open(p, "wb").write(mut)
            ids = list(anchored.get(f, []))
            with lock:
                for k in (f, (f, where.split(".")[0]), (f, where)):
                    if k in last:
                        ids.remove(last[k])
                        ids.insert(0, last[k])
            errs = []
            for i in ids:
                e = dict(os.environ, VERIF_SEED="1")
                try:
                    c = subprocess.run([sys.executable, "harness/check.py", i], cwd=d + "/verif", env=e, capture_output=True, text=True,
                                       stdin=subprocess.DEVNULL, timeout=1200)
                except subprocess.TimeoutExpired:
                    errs.append(i + " timeout")
                    continue
                if c.returncode == 1:
                    r["verdict"], r["by"] = "caught", i
                    m = [x for x in c.stdout.splitlines() if x.startswith("  [")]
                    r["msg"] = (m or c.stdout.splitlines())[0].strip()[:160]
                    with lock:
                        last[f] = last[(f, where.split(".")[0])] = last[(f, where)] = i
                    break
                if c.returncode != 0:
                    errs.append(i + " " + c.stderr[-200:])
            if r["verdict"] == "survived" and errs:
                r["verdict"] = "error"
                r["errs"] = errs
            return r
        finally:
            open(p, "wb").write(src)
            with lock:
                q.append(w)
                fo.write(json.dumps(r) + "\n")
                fo.flush()
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(go, jobs))


if __name__ == "__main__":
    main(*sys.argv[1:4], sys.argv[4:])
