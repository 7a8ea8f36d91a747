"""Mutation study: python3 tools/mutate.py gen | test | check [file filter]

gen lists mutants of /repo/rkstiff in /tmp/mut/list.json; test keeps those that pass the repository's tests (/tmp/mut/alive.json);
check runs the checks of /verif on these, most related ones first, until one objects (/tmp/mut/result.jsonl)."""
import ast, difflib, glob, json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
W = "/tmp/mut"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
def logcall(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in ast.unparse(n.value.func)
class G(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src.encode(); self.lines = [0]
        for l in self.src.split(b"\n"): self.lines.append(self.lines[-1] + len(l) + 1)
        self.out = []; self.ann = 0
    def span(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset
    def text(self, n):
        a, b = self.span(n); return self.src[a:b].decode()
    def add(self, n, new, kind):
        a, b = self.span(n)
        self.out.append((a, b, new, kind, n.lineno))
    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None: self.visit(d)
            for s in n.body: self.visit(s)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, (ast.Import, ast.ImportFrom)): return
        if logcall(n):
            return
        if isinstance(n, ast.Raise):
            self.add(n, "pass", "noraise"); return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None: self.visit(n.value)
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and getattr(self, "infunc", True):
            self.add(n, "pass", "delete")
        if isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, ast.If) or isinstance(n, ast.While):
            self.add(n.test, f"(True or ({self.text(n.test)}))", "true") if isinstance(n, ast.If) else None
            self.add(n.test, f"(False and ({self.text(n.test)}))", "false")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False: self.add(n, str(not v), "bool")
            elif isinstance(v, int): self.add(n, str(v + 1), "int")
            elif isinstance(v, float): self.add(n, repr(v * 1.01 if v else 0.01), "float")
            return
        if isinstance(n, ast.JoinedStr): return
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            self.add(n, f"({self.text(n.operand)})", "unary")
        if isinstance(n, ast.BinOp):
            l, r = self.text(n.left), self.text(n.right)
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*", ast.Mod: "//"}.get(type(n.op))
            if sw and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                self.add(n, f"(({l}) {sw} ({r}))", "binop")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                self.add(n, f"({l})", "dropterm")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}.get(type(n.ops[0]))
            if sw: self.add(n, f"({self.text(n.left)} {sw} {self.text(n.comparators[0])})", "cmp")
        if isinstance(n, ast.Compare) and len(n.ops) == 2:
            o = [{ast.Lt: "<", ast.LtE: "<="}[type(x)] for x in n.ops]
            f = {"<": "<=", "<=": "<"}
            a, b, c = self.text(n.left), self.text(n.comparators[0]), self.text(n.comparators[1])
            self.add(n, f"({a} {f[o[0]]} {b} {o[1]} {c})", "cmp"); self.add(n, f"({a} {o[0]} {b} {f[o[1]]} {c})", "cmp")
        if isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            self.add(n, "(" + f" {op} ".join(f"({self.text(v)})" for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                self.add(n, "(" + f" {'and' if op == 'or' else 'or'} ".join(f"({self.text(v)})" for j, v in enumerate(n.values) if j != i) + ")", "dropcond")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy": self.add(n, self.text(n.func.value), "nocopy")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "dot" and n.args and self.text(n.func.value) != "np":
                self.add(n, f"({self.text(n.args[0])}).dot({self.text(n.func.value)})", "swapdot")
            for i, k in enumerate(n.keywords):
                if k.arg in ("config", "etd_config", "loglevel", "dtype", "n", "axis", "d", "diagonalize"):
                    self.add(n, self.text(n.func) + "(" + ", ".join([self.text(a) for a in n.args] + [self.text(q) for j, q in enumerate(n.keywords) if j != i]) + ")", "dropkw")
        # neighbouring attribute names
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
            a = n.attr
            if a.startswith("_NL") and a[3:].isdigit():
                k = int(a[3:]); self.add(n, f"self._NL{k + 1 if k == 1 else k - 1}", "neigh")
            if a.startswith("_EL"):
                alt = {"_EL": "_EL2", "_EL2": "_EL", "_EL12": "_EL"}.get(a)
                if alt and ("self." + alt) in self.src.decode(): self.add(n, "self." + alt, "neigh")
        self.generic_visit(n)
def gen():
    res = []
    for f in sorted(glob.glob("/repo/rkstiff/**/*.py", recursive=True)):
        if f.endswith(("__version__.py", "__init__.py")): continue
        src = open(f).read(); g = G(src); g.visit(ast.parse(src))
        for a, b, new, kind, line in dict.fromkeys(g.out):
            m = src.encode(); m2 = m[:a] + new.encode() + m[b:]
            try: ast.parse(m2)
            except SyntaxError: continue
            res.append(dict(id=len(res), file=os.path.relpath(f, "/repo"), a=a, b=b, new=new, old=m[a:b].decode(), kind=kind, line=line))
    json.dump(res, open(f"{W}/list.json", "w"))
    from collections import Counter
    print(len(res), Counter(r["file"] for r in res), Counter(r["kind"] for r in res))
BASE = "6de87b9"      # the commit the list was made for
def moved(m, s):
    """where the mutated text is now"""
    old = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{m['file']}"], stdout=subprocess.PIPE).stdout
    if old == s: return m["a"]
    x, y = old.splitlines(True), s.splitlines(True)
    i = old[:m["a"]].count(b"\n"); j = old[:m["b"]].count(b"\n")
    for p, q, n in difflib.SequenceMatcher(None, x, y, autojunk=False).get_matching_blocks():
        if p <= i and j < p + n: return m["a"] + len(b"".join(y[:q])) - len(b"".join(x[:p]))
def tree(m, slot):
    d = f"{W}/{sys.argv[1][0]}{slot}"
    if not os.path.isdir(d): shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
    for f in glob.glob("/repo/rkstiff/**/*.py", recursive=True):
        t = os.path.join(d, os.path.relpath(f, "/repo"))
        s = open(f, "rb").read()
        if os.path.relpath(f, "/repo") == m["file"]:
            a = moved(m, s)
            if a is None: return None
            s = s[:a] + m["new"].encode() + s[a + m["b"] - m["a"]:]
        if open(t, "rb").read() != s: open(t, "wb").write(s)
    return d
import queue
def pool(items, fn, n, out):
    slots = queue.Queue()
    for i in range(n): slots.put(i)
    def one(m):
        s = slots.get()
        try: return m, fn(m, s)
        finally: slots.put(s)
    with cf.ThreadPoolExecutor(n) as ex, open(out, "a") as o:
        for m, r in ex.map(one, items):
            o.write(json.dumps(dict(m, result=r)) + "\n"); o.flush()
def test(m, slot):
    d = tree(m, slot)
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "-x", "tests"], cwd=d, env=dict(ENV, PYTHONPATH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        return "alive" if r.returncode == 0 else "killed"
    except subprocess.TimeoutExpired:
        return "killed"
REL = {"grids": "C20 C22 C23", "derivatives": "C21 C22", "transforms": "C23", "models": "C25", "loghelper": "C17", "solver_type": "C19", "solver.py": "C19 C17 C11",
       "solvercs": "C09 C17 C16 C10 C19", "solveras": "C18 C05 C07 C06 C08 C17 C16 C19 C24", "etd.py": "C18 C19 C01 C16 C12 C14",
       "etd4": "C01 C04 C02 C12 C19 C10 C03 C16 C11 C14", "etd5": "C01 C04 C02 C12 C19 C10 C03 C16 C11 C14", "if4.": "C01 C04 C02 C12 C19 C10 C03 C11",
       "etd34": "C01 C04 C02 C15 C12 C19 C10 C03 C16 C11 C14", "etd35": "C01 C04 C02 C15 C12 C19 C10 C03 C16 C11 C14", "if34": "C01 C04 C02 C15 C12 C19 C10 C03 C11 C05", "if45dp": "C01 C04 C02 C15 C12 C19 C10 C03 C11 C05"}
def check(m, slot):
    d = tree(m, slot)
    if d is None: return "fixed line"
    rel = next(v for k, v in REL.items() if k in m["file"]).split()
    env = dict(ENV, VERIF_REPO=d, VERIF_CACHE=f"{W}/cache", VERIF_SEED="1")
    for p in rel:
        try:
            r = subprocess.run([os.path.join(V, "check"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            if f"VIOLATION property={p}" in r.stdout: return p
            if r.returncode not in (0, 1) or (r.returncode == 1): return f"{p}: rc {r.returncode} {r.stdout[-300:]}"
        except subprocess.TimeoutExpired:
            return f"{p}: timeout"
    return "MISSED"
if __name__ == "__main__":
    if sys.argv[1] == "gen": gen()
    elif sys.argv[1] == "test":
        done = {json.loads(l)["id"] for l in open(f"{W}/test.jsonl")} if os.path.exists(f"{W}/test.jsonl") else set()
        pool([m for m in json.load(open(f"{W}/list.json")) if m["id"] not in done], test, int(sys.argv[2]), f"{W}/test.jsonl")
    elif sys.argv[1] == "check":
        done = {json.loads(l)["id"] for l in open(f"{W}/result.jsonl")} if os.path.exists(f"{W}/result.jsonl") else set()
        ms = [json.loads(l) for l in open(f"{W}/test.jsonl")]
        pool([m for m in ms if m["result"] == "alive" and m["id"] not in done and (len(sys.argv) < 4 or sys.argv[3] in m["file"])], check, int(sys.argv[2]), f"{W}/result.jsonl")
