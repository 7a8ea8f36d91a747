"""C17: logging."""

import io
import logging
import re
import sys

import numpy as np

from common import Pristine, Suite, job, need
import solvers as S

CLASSES = ["IF4", "ETD4", "IF34", "IF45DP"]
NAMED = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "WARN", "FATAL", "debug", "Info"]
NUMBERS = [10, 20, 30, 40, 50, 5, 15, 25, 35, 60]
BAD = ["LOUD", "", "verbose", "INFO ", "30", "raiseExceptions"]
LINE = re.compile(r"^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) - (\S+) - (.+?) - (.*)$")


def argument(a):
    return (NAMED, NUMBERS, BAD)[a["form"]][a["k"]]


def logger_name(i):
    return "rkstiff." + CLASSES[i] if i < 4 else "rkstiff.extra.tool"


class Own(logging.Handler):
    """a user's handler"""

    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, r):
        self.got.append((r.name, r.levelno, r.getMessage()))


class Heard:
    """a nonlinear function that remembers what it was asked"""

    def __init__(self, f, asked):
        self.f, self.asked = f, asked

    def __call__(self, u):
        self.asked.append(np.array(u).tobytes())
        return self.f(u)


def perform(tr, override=None):
    """Perform the behaviour in this (fresh) process and report what was seen after every operation.
    override: a level put on every logger before each evolution or failing step"""
    from rkstiff.util import loghelper

    for n in list(logging.Logger.manager.loggerDict):
        if n.startswith("rkstiff."):
            for h in list(logging.getLogger(n).handlers):
                logging.getLogger(n).removeHandler(h)
    real, sys.stderr = sys.stderr, io.StringIO()
    try:
        err = sys.stderr
        own = {}
        sol = {}
        asked = []
        out = []
        for st in tr:
            op = st["op"]
            l, name = op["l"], op["name"]
            arg = argument(op["arg"])
            log = logging.getLogger(logger_name(l))
            err.seek(0)
            err.truncate()
            asked.clear()
            for h in own.get(l, []):
                h.got.clear()
            exc = result = None
            saved = log.level
            if override is not None and name in ("evolve", "fail", "reject"):
                log.setLevel(override)
            try:
                if name == "own":
                    h = Own()
                    own.setdefault(l, []).append(h)
                    log.addHandler(h)
                elif name == "setup":
                    if l < 4:
                        loghelper.get_solver_logger(S.cls(CLASSES[l]), arg)
                    else:
                        loghelper.setup_logger(logger_name(l), arg)
                elif name in ("construct", "default"):
                    sol[l] = S.make(CLASSES[l], np.array([-1.0, -0.5]), Heard(lambda u: 0.125 * u, asked), **({} if name == "default" else {"loglevel": arg}))
                elif name == "set":
                    sol[l].set_loglevel(arg)
                elif name == "fail":
                    c = S.solver_config(minh=4.0 ** -op["steps"])
                    bad = S.make(CLASSES[l], np.array([-1.0, -0.5]), Heard(lambda u: u * np.nan, asked), c, **{"loglevel": log.level})
                    err.seek(0)
                    err.truncate()
                    for h in own.get(l, []):
                        h.got.clear()
                    bad.step(np.ones(2), 1.0)
                elif name == "reject":
                    # an ordinary step whose first trials are too long: smaller and smaller tolerances need more retries
                    bad = S.make(CLASSES[l], np.array([-1.0, -0.5]), Heard(lambda u: 3 * u * u, asked), S.solver_config(epsilon=10.0 ** -op["steps"]), **{"loglevel": log.level})
                    err.seek(0)
                    err.truncate()
                    for h in own.get(l, []):
                        h.got.clear()
                    result = bad.step(np.array([1.0, 0.5]), 1.0)
                elif name == "evolve":
                    s = sol[l]
                    t0, tf = float(op["t0"]), float(op["t0"] + op["len"])
                    if CLASSES[l] in S.ADAPTIVE:
                        s.config.incr_f = 1e9
                        s.config.epsilon = 1e3
                    result = s.evolve(np.array([1.0, 2.0]), t0, tf, (tf - t0) / op["steps"], op["store"], op["freq"])
                    result = (np.array(result), list(s.t), [np.array(u) for u in s.u])
            except Exception as e:
                exc = f"{type(e).__name__}: {e}"
            text = err.getvalue()
            own_got = [list(h.got) for h in own.get(l, [])]
            if override is not None and name in ("evolve", "fail", "reject"):
                log.setLevel(saved)
            out.append(dict(exc=exc, result=result, asked=list(asked), text=text, own=own_got,
                            levels=[logging.getLogger(logger_name(i)).level for i in range(5)],
                            handlers=[len(logging.getLogger(logger_name(i)).handlers) for i in range(5)],
                            disabled=[logging.getLogger(logger_name(i)).disabled for i in range(5)]))
        return out
    finally:
        sys.stderr = real


def parse(text, info):
    out = []
    for line in text.splitlines():
        m = LINE.match(line)
        need(m, f"a log line is not of the form 'time - name - LEVEL - message': {line!r}", **info)
        lev = m.group(3)
        n = logging.getLevelName(lev) if not lev.startswith("Level ") else int(lev[6:])
        out.append((m.group(2), n, m.group(4)))
    return out


def replay_log(ctx, tr):
    seen = Pristine.call(perform, tr)
    ref = Pristine.call(perform, tr, 1)       # everything said
    for j, (st, got, full) in enumerate(zip(tr, seen, ref)):
        op = st["op"]
        l, name = op["l"], op["name"]
        x = st["loggers"][l]
        info = dict(at=j, op=name, logger=logger_name(l), argument=argument(op["arg"]), level=x["level"])
        ctx.case(name, (l, repr(op), x["level"], x["own"], x["std"]), name != "init")
        if name in ("setup", "construct", "default", "set"):
            if op["ok"]:
                need(got["exc"] is None, f"a valid log level is refused: {got['exc']}", **info)
            else:
                need(got["exc"] and got["exc"].startswith("ValueError"), f"an invalid log level is not refused with ValueError ({got['exc']})", **info)
        for i, y in enumerate(st["loggers"]):
            if y["made"]:
                need(got["levels"][i] == y["level"], f"{logger_name(i)} has level {got['levels'][i]}, expected {y['level']}", **info)
            need(got["handlers"][i] == y["own"] + y["std"], f"{logger_name(i)} has {got['handlers'][i]} handlers, expected {y['own']} of the user and {y['std']} of the library", **info)
            need(not got["disabled"][i], f"{logger_name(i)} was disabled", **info)
        lines = parse(got["text"], info)
        need(x["std"] or not lines, "something is printed although the user's handlers are the only ones", text=got["text"], **info)
        streams = ([lines] if x["std"] else []) + got["own"]
        for lines in streams:
            for n, lev, msg in lines:
                need(n == logger_name(l) and lev >= x["level"], f"a message of level {lev} of {n} appears", message=msg, **info)
            if name == "fail" and x["level"] <= 30:
                need(sum(lev == 30 for _, lev, _ in lines) >= op["warns"], "no warning about non-finite values", lines=lines, **info)
            if name == "fail" and x["level"] <= 40:
                need(sum(lev >= 40 for _, lev, _ in lines) >= op["errs"], "no error message about the failed step", lines=lines, **info)
            if name in ("setup", "own"):
                need(not lines, "setting up a logger prints something", lines=lines, **info)
            if name in ("default", "construct", "set", "evolve", "reject"):
                need(all(lev < 30 for _, lev, _ in lines), "a warning or error is logged by an operation without problems", lines=lines[:5], **info)
        if name == "evolve":
            need(got["exc"] is None, f"evolve fails: {got['exc']}", steps=op["steps"], t0=op["t0"], tf=op["t0"] + op["len"], **info)
            a, b = got["result"], full["result"]
            need(full["exc"] is None and np.array_equal(a[0], b[0]) and a[1] == b[1] and all(np.array_equal(p, q) for p, q in zip(a[2], b[2])),
                 "the result of evolve depends on the log level", exc=full["exc"], **info)
        if name == "reject":
            need(got["exc"] is None, f"a step fails: {got['exc']}", **info)
            a, b = got["result"], full["result"]
            need(full["exc"] is None and np.array_equal(a[0], b[0]) and a[1:] == b[1:], "the result of a step depends on the log level", exc=full["exc"], **info)
        if name == "fail":
            need(got["exc"] is not None and got["exc"].startswith("MinimumStepReached") and got["exc"] == full["exc"], f"a hopeless step ends with {got['exc']}", **info)
        if name in ("evolve", "fail", "reject"):
            need(got["asked"] == full["asked"], f"the nonlinear function is evaluated {len(got['asked'])} times at this log level and {len(full['asked'])} times (or elsewhere) at another", **info)
            whole = [parse(full["text"], info)] if x["std"] else []
            for lines, all_ in zip(streams, whole + full["own"]):
                want = [m for m in all_ if m[1] >= x["level"]]
                need(lines == want, "what is logged at this level is not the part of the full log at and above it", got=lines[:4], want=want[:4], n=(len(lines), len(want)), **info)
                last = 0.0
                for _, _, msg in all_:
                    m = re.search(r"\(([-+.\w]+)%\)", msg)
                    if m:
                        p = float(m.group(1))
                        need(last - 0.1 <= p <= 100.1, f"progress goes from {last}% to {p}%", **info)
                        last = p
        ctx.sample(info)


PROPERTIES = {"C17": dict(
    suites=lambda ctx: [Suite("log", [job("log.qnt", "log", 40, traces=120 if ctx.thorough else 14, seed=ctx.seed * 86028121 + r, invariant="safe")
                                      for r in range(16 if ctx.thorough else 8)], replay_log)],
    level="model_checking",
    rule="a case is one logging-related operation in a generated history of loggers; distinct by logger state and operation")}
