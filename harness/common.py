"""Shared machinery: run the Quint specifications, decode their ITF traces, import the
code under test, collect verdicts and write evidence."""

import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import re
import shutil
import socket
import subprocess
import sys
import tempfile
import time
import traceback
import types
import warnings
from fractions import Fraction

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
P = 1 << 128

# --------------------------------------------------------------------------
# the code under test
# --------------------------------------------------------------------------
sys.path.insert(0, REPO)
import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")


def load_rkstiff():
    """Import rkstiff from REPO's working tree (generating nothing)."""
    if not os.path.exists(os.path.join(REPO, "rkstiff", "__version__.py")):
        stub = types.ModuleType("rkstiff.__version__")
        stub.__version__ = stub.version = "0"
        sys.modules["rkstiff.__version__"] = stub
    import rkstiff

    got = os.path.realpath(rkstiff.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"rkstiff imported from {got}, not from {REPO}")
    for m in ("etd4", "etd5", "if4", "etd34", "etd35", "if34", "if45dp", "grids", "derivatives", "transforms", "models"):
        importlib.import_module("rkstiff." + m)
    logging.lastResort = None
    root = logging.getLogger("rkstiff")
    root.propagate = False
    # solvers attach a stderr handler to loggers that have none
    for c in ("ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34", "IF45DP", "ScriptedAS", "ScriptedCS"):
        logging.getLogger("rkstiff." + c).addHandler(logging.NullHandler())
    return rkstiff


# --------------------------------------------------------------------------
# fixed point
# --------------------------------------------------------------------------
def fl(x):
    """fixed-point integer -> nearest float"""
    return x / P


def cx(p):
    return complex(p[0] / P, p[1] / P)


def vec(v, real=False):
    if real:
        return np.array([p[0] / P for p in v], dtype=float)
    return np.array([cx(p) for p in v], dtype=complex)


def mat(m, real=False):
    return np.array([vec(r, real) for r in m])


# --------------------------------------------------------------------------
# Quint
# --------------------------------------------------------------------------
def _decode(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(_decode(x) for x in v["#tup"])
        if "#set" in v:
            return [_decode(x) for x in v["#set"]]
        if "#map" in v:
            return {_hashable(_decode(k)): _decode(x) for k, x in v["#map"]}
        if set(v) == {"tag", "value"}:
            return (v["tag"], _decode(v["value"]))
        return {k: _decode(x) for k, x in v.items() if not k.startswith("#")}
    if isinstance(v, list):
        return [_decode(x) for x in v]
    return v


def _hashable(k):
    if isinstance(k, list):
        return tuple(_hashable(x) for x in k)
    if isinstance(k, dict):
        return tuple(sorted((a, _hashable(b)) for a, b in k.items()))
    return k


class MachineryError(Exception):
    """The check itself is broken (never a verdict about the code)."""


QUINT = shutil.which("quint") or "/usr/local/bin/quint"


def _env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin"
    return e


def _spec_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".qnt"):
            h.update(f.encode())
            h.update(open(os.path.join(SPEC, f), "rb").read())
    return h.hexdigest()


def quint_run(file, main, seed, steps, traces=1, samples=None, invariant=None, timeout=800, init=None, step=None):
    """Behaviours of a specification, as lists of decoded states."""
    samples = samples or traces
    # the simulator's generator is a counter: neighbouring seeds would give shifted copies of one stream
    seed = int.from_bytes(hashlib.blake2b(f"{main} {seed}".encode(), digest_size=7).digest(), "big") >> 4
    args = [QUINT, "run", "--backend", "typescript", os.path.join(SPEC, file), "--main", main, "--mbt",
            "--verbosity", "1", "--seed", str(seed), "--max-samples", str(samples), "--n-traces", str(traces),
            "--max-steps", str(steps)]
    if invariant:
        args += ["--invariant", invariant]
    if init:
        args += ["--init", init]
    if step:
        args += ["--step", step]
    cache = os.environ.get("VERIF_CACHE")
    key = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        key = os.path.join(cache, hashlib.sha256((_spec_hash() + repr(args)).encode()).hexdigest() + ".json")
        if os.path.exists(key):
            return [_decode_trace(t) for t in json.load(open(key))]
    tmp = tempfile.mkdtemp(prefix="vq.")
    try:
        args += ["--out-itf", os.path.join(tmp, "t_{seq}.itf.json")]
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(), cwd=tmp, timeout=timeout, text=True)
        files = sorted(os.listdir(tmp), key=lambda f: (len(f), f))
        if r.returncode != 0 or not files:
            raise MachineryError(f"quint run {file} {main} failed (rc {r.returncode}):\n{r.stdout[-3000:]}")
        raw = [json.load(open(os.path.join(tmp, f)))["states"] for f in files]
        if key:
            with open(key + ".tmp%d" % os.getpid(), "w") as fh:
                json.dump(raw, fh)
            os.replace(key + ".tmp%d" % os.getpid(), key)
        return [_decode_trace(t) for t in raw]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _decode_trace(states):
    out = []
    for s in states:
        d = {k.split("::")[-1]: _decode(v) for k, v in s.items() if k != "#meta"}
        out.append(d)
    return out


def jsonable(x):
    """Decoded ITF data / numpy data -> JSON (big ints as strings)."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return x if abs(x) < (1 << 53) else {"#bigint": str(x)}
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, tuple):
        return {"#tup": [jsonable(y) for y in x]}
    if isinstance(x, list):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        if all(isinstance(k, str) for k in x):
            return {k: jsonable(v) for k, v in x.items()}
        return {"#map": [[jsonable(k), jsonable(v)] for k, v in x.items()]}
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, Fraction):
        return str(x)
    return repr(x)


# --------------------------------------------------------------------------
# verdicts
# --------------------------------------------------------------------------
class Mismatch(Exception):
    """The implementation does something the specification does not allow."""

    def __init__(self, msg, **info):
        super().__init__(msg)
        self.msg, self.info = msg, info


class Suite:
    """A generated set of behaviours and the function replaying one behaviour."""

    def __init__(self, name, jobs, replay):
        self.name, self.jobs, self.replay = name, jobs, replay


def job(file, main, steps, traces=1, **kw):
    return dict(file=file, main=main, steps=steps, traces=traces, **kw)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.kinds = {}
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.known = []
        self.extra = {}
        self.max_fail = 3

    # -- bookkeeping used by replays ---------------------------------------
    def case(self, kind, key, nontrivial=True):
        """One comparison of the implementation with the specification."""
        self.evals += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr((kind, key)).encode(), digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    def delta(self):
        return dict(evals=self.evals, distinct=self.distinct, kinds=self.kinds, samples=self.samples, states=self.states,
                    transitions=self.transitions, traces=self.traces, violations=self.violations, known=self.known, extra=self.extra)

    def merge(self, d):
        self.evals += d["evals"]
        self.distinct |= d["distinct"]
        self.states += d["states"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        for k, v in d["kinds"].items():
            self.kinds[k] = self.kinds.get(k, 0) + v
        for x in d["samples"]:
            if len(self.samples) < 3:
                self.samples.append(x)
        for x in d["known"]:
            if x not in self.known:
                self.known.append(x)
        for k, v in d["extra"].items():
            if isinstance(v, int) and isinstance(self.extra.get(k, 0), int):
                self.extra[k] = self.extra.get(k, 0) + v
            elif isinstance(v, list):
                self.extra.setdefault(k, []).extend(v)
            else:
                self.extra[k] = v
        self.violations += d["violations"]

    def fail(self, suite, trace, msg, info):
        os.makedirs(OUT, exist_ok=True)
        blob = {"property": self.prop, "suite": suite, "seed": self.seed, "message": msg,
                "info": jsonable(info), "trace": jsonable(trace)}
        txt = json.dumps(blob)
        path = os.path.join(OUT, f"{self.prop}-{hashlib.sha256(txt.encode()).hexdigest()[:12]}.json")
        with open(path, "w") as f:
            f.write(txt)
        self.violations.append((msg, path))
        print(f"VIOLATION property={self.prop} replay={path}")
        print(f"  [{suite}] {msg}")
        for k, v in info.items():
            s = str(v)
            print(f"    {k}: {s if len(s) < 400 else s[:400] + '...'}")
        sys.stdout.flush()


def _job_seed(ctx, s, k):
    return ctx.seed * 1000003 + 7919 * k + int.from_bytes(hashlib.blake2b(s.name.encode(), digest_size=3).digest(), "big")


def run_suites(ctx, suites, workers=None):
    """Generate behaviours and replay them, each job in its own process (so that no replay sees module-level
    state left by another one)."""
    jobs = []
    for i, s in enumerate(suites):
        for k, j in enumerate(s.jobs):
            j = dict(j)
            j.setdefault("seed", _job_seed(ctx, s, k))
            jobs.append((i, j))
    workers = workers or min(8, os.cpu_count() or 8)
    global _SUITES
    _SUITES = (ctx.prop, ctx.tier, ctx.seed, suites)
    mp = multiprocessing.get_context("fork")
    with mp.Pool(workers, maxtasksperchild=1) as pool:
        for d in pool.imap_unordered(_run_job, jobs, chunksize=1):
            if "error" in d:
                pool.terminate()
                raise MachineryError(d["error"])
            ctx.merge(d)


_SUITES = None


def _run_job(arg):
    i, j = arg
    prop, tier, seed, suites = _SUITES
    ctx = Ctx(prop, tier, seed)
    try:
        Pristine.start()
        for tr in quint_run(**j):
            ctx.traces += 1
            ctx.states += len(tr)
            ctx.transitions += max(0, len(tr) - 1)
            if len(ctx.violations) >= ctx.max_fail:
                break
            replay_one(ctx, suites[i], tr)
        return ctx.delta()
    except Exception:  # anything else is a defect of the check
        return {"error": traceback.format_exc()}
    finally:
        Pristine.stop()


class Pristine:
    """Runs functions in processes forked before the code under test was first used here."""

    conn = proc = None

    @classmethod
    def start(cls):
        a, b = multiprocessing.get_context("fork").Pipe()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                cls._serve(b)
            finally:
                os._exit(0)
        b.close()
        cls.conn, cls.proc = a, pid

    @classmethod
    def stop(cls):
        if cls.conn is not None:
            cls.conn.close()
            os.waitpid(cls.proc, 0)
            cls.conn = None

    @staticmethod
    def _serve(c):
        while True:
            try:
                fn, args = c.recv()
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        r = (True, fn(*args))
                    except Exception as e:
                        r = (False, f"{type(e).__name__}: {e}")
                    c.send(r)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    @classmethod
    def call(cls, fn, *args):
        if cls.conn is None:
            cls.start()
        cls.conn.send((fn, args))
        ok, r = cls.conn.recv()
        if not ok:
            raise Mismatch("a fresh solver fails: " + r, args=repr(args)[:300])
        return r


def replay_one(ctx, suite, tr):
    try:
        suite.replay(ctx, tr)
    except Mismatch as m:
        ctx.fail(suite.name, tr, m.msg, m.info)
    except MachineryError:
        raise
    except Exception as e:  # an exception escaping from the code under test is a mismatch
        tb = traceback.extract_tb(e.__traceback__)
        if any(fr.filename.startswith(os.path.realpath(REPO) + os.sep) or fr.filename.startswith(REPO + os.sep) for fr in tb) \
                or isinstance(e, (ImportError, AttributeError, TypeError)):
            ctx.fail(suite.name, tr, f"unexpected {type(e).__name__}: {e}", {"traceback": traceback.format_exc()[-1500:]})
        else:
            raise


def close(a, b, tol):
    """max |a - b| <= tol with NaN/shape handling"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    d = np.abs(a - b)
    return bool(np.all(d <= tol))


def need(cond, msg, **info):
    if not cond:
        raise Mismatch(msg, **info)


def tlc(ctx, spec, module, bound, **about):
    """Exhaustive exploration of a finite specification: TLC on the compiled Quint module (invariant `safe`)."""
    tmp = tempfile.mkdtemp(prefix="vtlc.")
    try:
        for _ in range(4):
            with socket.socket() as sock:       # a port of its own for the translation server
                sock.bind(("127.0.0.1", 0))
                port = sock.getsockname()[1]
            r = subprocess.run([QUINT, "compile", "--target", "tlaplus", os.path.join(SPEC, spec), "--main", module,
                                "--server-endpoint", f"localhost:{port}"],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=_env(), cwd=tmp, text=True, timeout=150)
            m = re.search(rf"^-+ MODULE {module}[\s\S]*", r.stdout, re.M)
            if m:
                break
        if not m:
            raise MachineryError(f"quint compile {spec} failed:\n" + r.stdout[-2000:])
        txt = re.sub(r"^====+\s*$", f"bound == {bound}\n====", m.group(0), flags=re.M)
        open(os.path.join(tmp, f"{module}.tla"), "w").write(txt)
        for f in ("Apalache.tla", "Variants.tla", "mc.cfg"):
            shutil.copy(os.path.join(SPEC, "tlc", f), tmp)
        r = subprocess.run(["tlc", "-workers", "8", "-metadir", os.path.join(tmp, "meta"), "-config", "mc.cfg", f"{module}.tla"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(), cwd=tmp, text=True, timeout=700)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
        if r.returncode != 0 or not m:
            raise MachineryError(f"TLC on {module} failed:\n" + r.stdout[-3000:])
        ctx.extra["tlc"] = {"module": module, "transitions": int(m.group(1)), "distinct_states": int(m.group(2)), **about}
        ctx.states += int(m.group(2))
        ctx.transitions += int(m.group(1))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
