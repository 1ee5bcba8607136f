"""Shared machinery: runs the real code under observation, has TLC judge the
recorded traces against the specification, and writes evidence.

Outcome protocol of a check
  exit 0   every trace was accepted
  exit 1   some trace was rejected; one line "VIOLATION property=<id> replay=<path>"
  exit 2   the machinery itself failed (no verdict)
"""
import contextlib
import json
import logging
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PYMECH_REPO", "/repo")
SRC = os.path.abspath(os.path.join(REPO, "src", "pymech"))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """Raised by the alarm inside code under test (not an Exception, so it is not swallowed)."""


# --------------------------------------------------------------------------- real code
def load_pymech():
    """Import pymech from the working tree of the repository, whatever is installed."""
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    if not os.path.exists(os.path.join(src, "pymech", "_version.py")):
        v = types.ModuleType("pymech._version")
        v.__version__ = v.version = "0"
        sys.modules["pymech._version"] = v
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    import pymech

    assert os.path.abspath(pymech.__file__).startswith(os.path.abspath(src)), pymech.__file__
    return pymech


def _alarm(signum, frame):
    raise Hang()


_marker = None


def call(fn, *args, timeout=20, **kw):
    """Call code under test. Returns (status, value): status 'ok' | 'err' | 'hang';
    value is the result or the exception's class name (and text as .args)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    out = open(os.devnull, "w")
    try:
        with contextlib.redirect_stdout(out):
            r = fn(*args, **kw)
        signal.alarm(0)
        return "ok", r
    except Hang:
        return "hang", "Hang"
    except RecursionError:
        return "err", "RecursionError"
    except MemoryError:
        return "err", "MemoryError"
    except SystemExit:
        return "err", "SystemExit"
    except Exception as e:  # noqa: BLE001
        return "err", type(e).__name__
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        out.close()


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{pid}/{seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.violations = []      # (replay path, clauses)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                        samples=[])
        self.assumptions = []
        self.clauses = {}
        self.fails = 0
        self.live = None          # the world whose trace is being recorded

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0


# --------------------------------------------------------------------------- TLC
def tlc_cmd(module, cfg, workers=1, extra=(), metadir=None, heap="2g"):
    return ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", "-cp", TLA_CP, "tlc2.TLC",
            "-noTE", "-deadlock", "-workers", str(workers), "-metadir", metadir, "-config", cfg,
            *extra, module]


_GEN = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = None
        for m in _GEN.finditer(out):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.finished = "Model checking completed" in out or "Finished in" in out

    def lines(self, tag):
        """Payload of PrintT("<tag>|...") lines."""
        pre = f'"{tag}|'
        r = []
        for ln in self.out.splitlines():
            if ln.startswith(pre):
                r.append(json.loads(ln)[len(tag) + 1:])
        return r


def start_tlc(ctx, module, cfg, env=None, workers=1, extra=(), heap="2g", timeout=800):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ctx.scratch)
    e = dict(os.environ)
    e.update(env or {})
    log = os.path.join(meta, "out.txt")
    f = open(log, "w")
    cmd = ["timeout", str(timeout)] + tlc_cmd(module, cfg, workers, extra, meta, heap)
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
    return p, f, log


def finish_tlc(h):
    p, f, log = h
    p.wait()
    f.close()
    with open(log, errors="replace") as g:
        out = g.read()
    return TlcResult(p.returncode, out)


def run_tlc(ctx, module, cfg, **kw):
    return finish_tlc(start_tlc(ctx, module, cfg, **kw))


def model_check(ctx, module, cfg, workers=4, heap="4g", timeout=600, env=None):
    """Exhaustive check of the design; a failure here is a fault of the specification."""
    r = run_tlc(ctx, module, cfg, workers=workers, heap=heap, timeout=timeout, env=env)
    if r.rc != 0 or "No error has been found" not in r.out:
        sys.stderr.write(r.out[-6000:])
        raise MachineryError(f"model checking {module}/{cfg} failed (rc {r.rc})")
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.cov.setdefault("models", []).append(
        dict(model=module, config=cfg, distinct_states=r.distinct, generated=r.generated))
    return r


def validate(ctx, module, traces, tab=None, cfg=None, per_batch=None, timeout=700, jobs=7,
             heap="2g", label=None):
    """Have TLC judge traces (list of dict(id=.., ev=[..])) against the specification module.
    Records violations in ctx."""
    if not traces:
        raise MachineryError("no traces")
    if cfg is None:
        cfg = module + ".cfg" if os.path.exists(os.path.join(SPEC, module + ".cfg")) else "Trace.cfg"
    if per_batch is None:
        per_batch = max(1, -(-len(traces) // jobs))
    batches = [traces[i:i + per_batch] for i in range(0, len(traces), per_batch)]
    handles, results = [], []
    pend = list(enumerate(batches))
    running = []
    while pend or running:
        while pend and len(running) < jobs:
            i, b = pend.pop(0)
            fn = ctx.path(f"batch-{module}-{label or ''}-{i}-{len(ctx.cov['samples'])}.json")
            with open(fn, "w") as f:
                json.dump(dict(tab=tab or {}, traces=b), f)
            h = start_tlc(ctx, f"{module}.tla", cfg, env={"TRACE_FILE": fn}, timeout=timeout, heap=heap)
            running.append((h, b, fn))
        for x in list(running):
            if x[0][0].poll() is not None:
                running.remove(x)
                results.append((finish_tlc(x[0]), x[1], x[2]))
        time.sleep(0.03)
    for r, b, fn in results:
        done = {}
        for ln in r.lines("DONE"):
            k, n = ln.split("|")
            done[int(k)] = int(n)
        bad = {}
        for ln in r.lines("BAD"):
            k, l, names = ln.split("|", 2)
            bad.setdefault(int(k), []).append((int(l), names))
        if "Parsing or semantic analysis failed" in r.out:
            raise MachineryError(r.out[-3000:])
        harness = r.lines("HARNESS")
        if harness:
            raise MachineryError(f"{module}: harness produced an invalid event: {harness[:5]}")
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.generated
        for k, t in enumerate(b, 1):
            if k in done and done[k] == len(t["ev"]):
                ctx.cov["traces_validated_against_impl"] += 1
                ctx.cov["events_validated"] += len(t["ev"])
            elif k not in bad:
                # no verdict: did the specification choke on an observed value?
                if "Error:" in r.out and r.rc != 124:
                    if r.rc in (137, 143) or "OutOfMemory" in r.out or "Could not reserve" in r.out:
                        raise MachineryError(r.out[-3000:])
                    if len(b) > 1:
                        # judge the undecided traces one by one
                        validate(ctx, module, [t], tab, cfg, 1, timeout, 1, heap, "single")
                        continue
                    sys.stderr.write(r.out[-3000:])
                    report(ctx, module, t, tab, [(0, "TLC could not evaluate the observed state")])
                    continue
                sys.stderr.write(r.out[-3000:])
                raise MachineryError(f"{module}: no verdict for trace {t['id']} (rc {r.rc})")
            if k in bad:
                report(ctx, module, t, tab, sorted(bad[k]))
        if not ctx.keep_batches:
            os.unlink(fn)
    if len(ctx.cov["samples"]) < 3 and traces:
        s = json.dumps(traces[len(traces) // 2])
        ctx.cov["samples"].append(dict(module=module, trace=s if len(s) < 1500 else s[:1500] + "..."))


Ctx.keep_batches = False


def report(ctx, module, trace, tab, bad):
    ctx.fails += 1
    for _, names in bad:
        for n in names.split(","):
            ctx.clauses[n] = ctx.clauses.get(n, 0) + 1
    if len(ctx.violations) >= 5:
        return
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, f"{ctx.pid}-{len(ctx.violations)}.json")
    with open(fn, "w") as f:
        json.dump(dict(property=ctx.pid, module=module, bad=bad, tab=tab or {}, traces=[trace]), f)
    ctx.violations.append((fn, bad, trace.get("id")))


def generate(ctx, module, cfg, num, depth, seed, tag="HIST", timeout=120):
    """Operation histories printed by TLC while simulating the model."""
    r = run_tlc(ctx, module, cfg, extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)),
                timeout=timeout)
    h = [json.loads(x) for x in r.lines(tag)]
    if not h:
        sys.stderr.write(r.out[-3000:])
        raise MachineryError(f"no histories from {module}")
    return h


# --------------------------------------------------------------------------- evidence
def write_evidence(ctx, level, extra=None):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = dict(ctx.cov)
    cov["rejected_traces"] = ctx.fails
    if ctx.clauses:
        cov["rejecting_clauses"] = ctx.clauses
    if extra:
        cov.update(extra)
    with open(os.path.join(d, f"{ctx.pid}.json"), "w") as f:
        json.dump(dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
                       assumptions=ctx.assumptions, wall_s=round(ctx.elapsed(), 2),
                       violations=len(ctx.violations)), f, indent=1)
