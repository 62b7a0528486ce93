"""Shared machinery: histories of real library calls are recorded as ndjson
traces of integers and judged by TLC against the specifications in ../spec."""
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("HOL_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
BIG = 1 << 30
TOLSCALE = float(os.environ.get("HOL_TOLSCALE", "0"))  # calibration of the tolerances only

os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


def import_lib():
    """Import the library from the repository's working tree."""
    for m in ("numpy", "torch", "lion_pytorch", "omegaconf", "pytorch_lightning", "torchmetrics"):
        try:
            __import__(m)
        except ImportError:
            pass        # the library will say so itself if it needs it
    # one thread, before anything runs: worker processes are forked later
    import torch

    torch.set_num_threads(1)
    sys.path.insert(0, REPO)
    # bytecode left in the tree is matched by second and size only: never read it
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"hol_nocache_{os.getpid()}")
    import logging

    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    import high_order_layers_torch

    where = os.path.realpath(os.path.dirname(high_order_layers_torch.__file__))
    want = os.path.realpath(os.path.join(REPO, "high_order_layers_torch"))
    if where != want:
        raise RuntimeError(f"library imported from {where}, expected {want}")


class Abort(Exception):
    """The library raised where it must not: the history ends here."""


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


def to_int(v, sc, cap=BIG):
    """numbers -> integers in units of 1/sc; never raises, never overflows"""
    if isinstance(v, (list, tuple)):
        return [to_int(x, sc, cap) for x in v]
    try:
        f = float(v)
    except Exception:
        return cap - 7
    if f != f:
        return cap - 1
    f *= sc
    if f > cap - 3:
        return cap - 3
    if f < -(cap - 3):
        return -(cap - 3)
    return int(round(f))


class Hist:
    """One recorded history."""

    def __init__(self, prop, idx, seed, tier):
        self.prop, self.idx, self.tier = prop, idx, tier
        self.events = []
        self.key = f"{seed}:{prop}:{idx}"
        h = hashlib.sha256(self.key.encode()).digest()
        self.rng = random.Random(h)
        s = int.from_bytes(h[:4], "big") & 0x7FFFFFFF
        import torch

        torch.manual_seed(s)
        random.seed(s)
        self.cover = set()
        self.ev("reset")

    def ev(self, _e, **kw):
        kw["e"] = _e
        if TOLSCALE and "tol" in kw:
            kw["tol"] = max(int(kw["tol"] * TOLSCALE), min(kw["tol"], 4))
        self.events.append(kw)

    def lib(self, op, fn, **ids):
        """Call into the library; an exception is an observed event."""
        try:
            return fn()
        except Timeout:
            self.ev("err", op=op, type="Timeout", msg="", **ids)
            raise Abort()
        except Exception as ex:
            self.ev("err", op=op, type=type(ex).__name__, msg=str(ex)[:200], **ids)
            raise Abort()

    def lib_soft(self, op, fn, **ids):
        """Like lib but returns (ok, value) instead of ending the history."""
        try:
            return True, fn()
        except Timeout:
            raise
        except Exception as ex:
            self.ev("err", op=op, type=type(ex).__name__, msg=str(ex)[:200], **ids)
            return False, ex

    def fact(self, ok, what):
        self.ev("fact", ok=bool(ok), what=what)


def listof(t):
    """tensor -> nested lists, anything else -> something TLC rejects by shape"""
    try:
        return t.detach().to("cpu").tolist()
    except Exception:
        return []


def run_tlc(module, cfg, env=None, workdir=None, extra=(), timeout=600, heap="3g", workers="1"):
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", workers, "-metadir", meta,
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module)]
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        return 124, (t.stdout or b"").decode() if isinstance(t.stdout, bytes) else (t.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    return 0, 0


class MachineryError(Exception):
    pass


class EvalError(Exception):
    """TLC could not evaluate the specification on an observation."""


def validate(spec, hists, workdir, timeout=700):
    """Judge the histories; one whose observations the specification cannot even
    evaluate (wrong structure, numbers outside of every admissible range) is a
    violation of its own, found by bisection."""
    try:
        return validate_batch(spec, hists, workdir, timeout)
    except EvalError as ex:
        if len(hists) == 1:
            h = hists[0]
            return {"states": 0, "transitions": 0, "lines": len(h.events),
                    "bad": [(h.idx, len(h.events) - 1, "observation without meaning in the specification: " + str(ex),
                             h.events)]}
    mid = len(hists) // 2
    a, b = validate(spec, hists[:mid], workdir, timeout), None
    if len(a["bad"]) < 3:
        b = validate(spec, hists[mid:], workdir, timeout)
    if b:
        a = {k: a[k] + b[k] for k in a}
    return a


def validate_batch(spec, hists, workdir, timeout=700):
    """Judge the histories with the trace specification; returns verdict dict."""
    path = os.path.join(workdir, f"trace{os.getpid()}_{random.getrandbits(40)}.ndjson")
    owner = []
    with open(path, "w") as f:
        for h in hists:
            for k, e in enumerate(h.events):
                f.write(json.dumps(e) + "\n")
                owner.append((h, k))
    rc, out = run_tlc(spec + ".tla", spec + ".cfg", env={"TRACE": path}, workdir=workdir, timeout=timeout)
    m = re.search(r'"VERDICT (.*)"\s*$', out, re.M)
    if m is None:
        x = re.search(r"Overflow|Attempted to [^\n]*|was not in the domain|out of domain|[Nn]on-enumerable|"
                      r"In evaluation, [^\n]*|The argument of [^\n]*|The first argument of [^\n]*", out)
        if x is not None and "OutOfMemory" not in out:
            sys.stderr.write(out[-1500:] + "\n")
            raise EvalError(x.group(0)[:120])
        raise MachineryError(f"TLC gave no verdict on {spec} (rc={rc}):\n" + out[-3000:])
    v = json.loads(m.group(1).encode().decode("unicode_escape"))
    if v["lines"] != len(owner):
        raise MachineryError("trace not fully consumed")
    gen, dist = tlc_stats(out)
    bad = []
    for b in v["bad"]:
        h, k = owner[b["line"] - 1]
        bad.append((h.idx, k, b["clause"], h.events))
    os.unlink(path)
    return {"states": dist, "transitions": gen, "bad": bad, "lines": len(owner)}


def _worker(args):
    spec, gen, prop, idxs, seed, tier, workdir = args
    try:
        signal.signal(signal.SIGALRM, _alarm)
        sys.stdout = open(os.devnull, "w")
        import torch

        torch.set_num_threads(1)
        hists = []
        for i in idxs:
            h = Hist(prop, i, seed, tier)
            signal.alarm(120)
            try:
                gen(h)
            except Abort:
                pass
            except Timeout:
                h.ev("err", op="history", type="Timeout", msg="")
            except MachineryError:
                raise
            except Exception as ex:
                # what the library returned could not even be recorded (never so on the unchanged tree)
                tb = traceback.extract_tb(ex.__traceback__)[-1]
                h.ev("err", op=f"recording ({os.path.basename(tb.filename)}:{tb.lineno})", type=type(ex).__name__,
                     msg=str(ex)[:200])
            finally:
                signal.alarm(0)
            hists.append(h)
        t0 = time.time()
        r = validate(spec, hists, workdir)
        r["tlc_s"] = time.time() - t0
        r["cover"] = set().union(*[h.cover for h in hists])
        r["histories"] = len(hists)
        r["sample"] = hists[0].events[:6] if hists else []
        return ("ok", r)
    except BaseException:
        return ("error", traceback.format_exc())


def run_traces(spec, gen, prop, count, workdir, seed=SEED, tier=TIER, only=None, tag=""):
    """count histories made by gen, spread over WORKERS processes."""
    idxs = list(range(count)) if only is None else list(only)
    idxs = [f"{tag}{i}" for i in idxs] if tag else idxs
    chunks = [c for c in (idxs[k::WORKERS] for k in range(WORKERS)) if c]
    ctx = mp.get_context("fork")
    with ctx.Pool(len(chunks)) as pool:
        res = pool.map(_worker, [(spec, gen, prop, c, seed, tier, workdir) for c in chunks], chunksize=1)
    errs = [r for k, r in res if k == "error"]
    if errs:
        raise MachineryError(errs[0])
    tot = {"states": 0, "transitions": 0, "lines": 0, "histories": 0, "bad": [], "cover": set(), "sample": None}
    for _, r in res:
        for k in ("states", "transitions", "lines", "histories"):
            tot[k] += r[k]
        tot["bad"] += r["bad"]
        tot["cover"] |= r["cover"]
        tot["sample"] = tot["sample"] or r["sample"]
    return tot


def compact(e, limit=600):
    s = json.dumps(e)
    return s if len(s) <= limit else s[:limit] + "..."


class Check:
    """Accumulates what one check covered and turns it into a verdict."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "trace_events": 0,
                    "model_states": 0, "samples": [], "models": {}, "situations": []}
        self.viol = []
        self.blame = None
        self.workdir = tempfile.mkdtemp(prefix="hol_" + prop + "_")
        self.situ = set()

    def model(self, module, cfg, expect_states=1, extra=(), timeout=800, workers="8", heap="6g"):
        """Exhaustive TLC run of a model; a failure here is a wrong model."""
        rc, out = run_tlc(module + ".tla", cfg + ".cfg", workdir=self.workdir, extra=extra, timeout=timeout,
                          workers=workers, heap=heap)
        gen, dist = tlc_stats(out)
        if rc != 0 or "No error has been found" not in out or dist < expect_states:
            raise MachineryError(f"model {cfg} failed (rc={rc}):\n{out[-3000:]}")
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["model_states"] += dist
        self.cov["models"][cfg] = {"distinct_states": dist, "generated": gen, "exhaustive": True}
        return out

    def emitted(self, out):
        """behaviours a model printed, in an order independent of TLC's workers"""
        rows = [json.loads(m.encode().decode("unicode_escape")) for m in re.findall(r'^"EMIT (.*)"\s*$', out, re.M)]
        return sorted(rows, key=lambda x: json.dumps(x, sort_keys=True))

    def replayed(self, ok, clause, info):
        if not ok:
            self.viol.append(("model replay", clause, 0, clause, [dict(e="replay", **info)]))

    def count_replayed(self, n):
        self.cov["traces_validated_against_impl"] += n
        self.cov["model_behaviours_replayed"] = self.cov.get("model_behaviours_replayed", 0) + n

    def traces(self, spec, gen, count, tag=""):
        r = run_traces(spec, gen, self.prop, count, self.workdir, tag=tag)
        self.add(spec, r)
        return r

    def add(self, spec, r):
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.cov["traces_validated_against_impl"] += r["histories"]
        self.cov["trace_events"] += r["lines"]
        self.situ |= r["cover"]
        if r["sample"]:
            self.cov["samples"].append([json.loads(compact(e)) if len(json.dumps(e)) <= 600 else compact(e)
                                        for e in r["sample"][:4]])
        for idx, k, clause, events in r["bad"]:
            if clause.startswith("H:"):
                self.blame = f"harness clause {clause} in history {idx} event {k}: {compact(events[k], 3000)}"
                continue
            self.viol.append((spec, idx, k, clause, events))

    def finish(self):
        if self.blame and not self.viol:
            raise MachineryError(self.blame)
        shutil.rmtree(self.workdir, ignore_errors=True)
        self.cov["situations"] = sorted(self.situ)[:400]
        self.cov["distinct_situations"] = len(self.situ)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol),
              "assumptions": ["float32 rounding bounded by the logged tolerance, which the specification caps",
                              "TLC and the Json/IOUtils community modules evaluate the specification correctly",
                              "the recorded integers are the values the library returned (harness/core.py)"]}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.viol:
            print(f"OK property={self.prop} {json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)})}"
                  f" wall={ev['wall_s']}s")
            return 0
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}.json")
        spec, idx, k, clause, events = self.viol[0]
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "specification": spec,
                       "history": idx, "event": k, "clause": clause, "failing_event": events[k],
                       "history_events": events[: k + 1],
                       "all": [{"history": i, "event": kk, "clause": c} for _, i, kk, c, _ in self.viol[:50]]}, f)
        for spec, idx, k, clause, events in self.viol[:8]:
            e = dict(events[k])
            print(f"  history {idx} event {k} ({e.get('e')}): {clause} {e.get('msg', '')}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1


def abort(msg):
    """Machinery failure: neither verdict."""
    sys.stderr.write("CHECK-ERROR " + msg + "\n")
    sys.exit(3)
