"""Explorer core shared by every check.

A property module (mc/props/<id>.py) lists SECTIONS.  A section is a function ``sec(ctx)`` that
enumerates a finite space and calls ``ctx.case(desc, fn)`` once for every element of it.  ``desc`` is a
JSON value that identifies the element (it is what a replay file contains) and ``fn`` executes the real
code on it and compares with the reference model, reporting disagreements with ``ctx.fail`` (or the
helpers built on it).  Nothing is sampled: the enumeration is written out in the section, and the only
thing the tier changes is its bounds.

Operation-sequence spaces use ``bfs``: breadth-first search over histories, where every transition runs
the real operation *and* the reference-model operation, and states are merged when both the reference
model and everything observable of the implementation coincide.
"""

import copy
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get("VERIF_EVIDENCE_DIR", VERIF / "evidence"))
CASE_TIMEOUT_S = 120
MAX_RECORDED = 40


class CaseTimeout(BaseException):
    """Raised inside a case that does not finish."""


class StopCase(Exception):
    """Raised to leave a case early after a fatal disagreement was recorded."""


def digest(obj):
    """A stable 8-byte digest of any value built from plain Python and numpy values."""
    return hashlib.blake2b(canon_bytes(obj), digest_size=8).digest()


def canon_bytes(obj):
    return repr(canon(obj)).encode()


def canon(obj):
    """Canonical plain-Python form (floats rounded to 12 significant digits)."""
    import numpy as np

    if isinstance(obj, np.ndarray):
        return ("arr", obj.shape, tuple(canon(v) for v in obj.ravel().tolist()))
    if isinstance(obj, np.generic):
        obj = obj.item()
    if isinstance(obj, bool) or obj is None or isinstance(obj, (str, bytes, int)):
        return obj
    if isinstance(obj, float):
        return float(f"{obj:.12g}") if obj == obj else "nan"
    if isinstance(obj, dict):
        return ("dict",) + tuple(sorted(((canon(k), canon(v)) for k, v in obj.items()), key=repr))
    if isinstance(obj, (set, frozenset)):
        return ("set",) + tuple(sorted((canon(v) for v in obj), key=repr))
    if isinstance(obj, (list, tuple)):
        return tuple(canon(v) for v in obj)
    return repr(obj)


def same(a, b, rtol=1e-9, atol=1e-12):
    """Structural equality: floats with tolerance, nan == nan, shapes must agree."""
    import numpy as np

    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict) or isinstance(b, dict):
        return (
            isinstance(a, dict)
            and isinstance(b, dict)
            and set(a) == set(b)
            and all(same(a[k], b[k], rtol, atol) for k in a)
        )
    try:
        aa, bb = np.asarray(a), np.asarray(b)
    except ValueError:
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if aa.shape != bb.shape:
        return False
    if aa.dtype.kind in "biufc" and bb.dtype.kind in "biufc":
        return bool(np.allclose(aa, bb, rtol=rtol, atol=atol, equal_nan=True))
    if aa.dtype == object or bb.dtype == object:
        fa, fb = list(aa.ravel()), list(bb.ravel())
        if aa.shape == ():
            return bool(fa[0] == fb[0])
        return all(same(x, y, rtol, atol) for x, y in zip(fa, fb))
    if aa.dtype.kind != bb.dtype.kind and not (aa.dtype.kind in "SU" and bb.dtype.kind in "SU"):
        return False
    return bool(np.array_equal(aa, bb))


class Ctx:
    """Per-section (and per-shard) context: counters, failures, replay filtering."""

    def __init__(self, prop, section, tier, seed, shard=0, nshards=1, only=None):
        self.prop = prop
        self.section = section
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.only = only
        self.index = -1
        self.cases = 0
        self.transitions = 0
        self.compared = 0
        self.states = set()
        self.outcomes = Counter()
        self.samples = []
        self.failures = []
        self.nfail = 0
        self.keyed = Counter()
        self.current = None
        self.notes = {}

    # ------------------------------------------------------------------ bounds
    def pick(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    # ------------------------------------------------------------------ cases
    def mine(self, desc):
        """Should this shard execute the next case of the enumeration?"""
        self.index += 1
        if self.only is not None:
            return json.loads(json.dumps(desc)) == self.only
        return self.index % self.nshards == self.shard

    def case(self, desc, fn, *args):
        """Execute one element of the enumerated space."""
        if not self.mine(desc):
            return
        self.run(desc, fn, *args)

    def run(self, desc, fn, *args):
        self.cases += 1
        self.current = desc
        before = self.nfail
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT_S)
        try:
            fn(*args)
        except StopCase:
            pass
        except CaseTimeout:
            self.fail(f"the case did not finish within {CASE_TIMEOUT_S} s")
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as err:  # noqa: BLE001  unexpected exception from the code under test
            self.fail(f"unexpected {type(err).__name__}: {err}\n{traceback.format_exc(limit=-6)}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if len(self.samples) < 2 and self.nfail == before:
            self.samples.append({"section": self.section, "case": desc})

    def state(self, obj):
        self.states.add(digest((self.section, obj)))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, label):
        self.outcomes[f"{self.section}:{label}"] += 1

    # ------------------------------------------------------------------ verdicts
    def fail(self, msg, key=None):
        self.nfail += 1
        if key is not None:
            self.keyed[key] += 1
        # repeats of a keyed failure (a listed finding) must not crowd out others
        if self.keyed[key] == 1 if key is not None else len(self.failures) < MAX_RECORDED:
            self.failures.append(
                {
                    "property": self.prop,
                    "section": self.section,
                    "case": self.current,
                    "key": key,
                    "message": str(msg)[:3000],
                }
            )

    def check(self, cond, msg, key=None):
        self.compared += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
            return False
        return True

    def eq(self, got, want, what, rtol=1e-9, atol=1e-12):
        self.compared += 1
        if not same(got, want, rtol, atol):
            self.fail(f"{what}: got {_short(got)}, expected {_short(want)}")
            return False
        return True

    def raises(self, excs, fn, what):
        """fn must raise one of excs."""
        self.compared += 1
        try:
            got = fn()
        except excs:
            return True
        except Exception as err:  # noqa: BLE001
            names = getattr(excs, "__name__", excs)
            self.fail(f"{what}: raised {type(err).__name__}({err}) instead of {names}")
            return False
        self.fail(f"{what}: was accepted (returned {_short(got)}) instead of raising")
        return False

    def attempt(self, fn):
        """Run fn; returns ("ok", value) or ("err", exception)."""
        try:
            return "ok", fn()
        except Exception as err:  # noqa: BLE001
            return "err", err

    def result(self):
        return {
            "section": self.section,
            "cases": self.cases,
            "transitions": self.transitions,
            "compared": self.compared,
            "states": self.states,
            "outcomes": self.outcomes,
            "samples": self.samples,
            "failures": self.failures,
            "nfail": self.nfail,
            "keyed": self.keyed,
            "notes": self.notes,
        }


def _short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def _on_alarm(signum, frame):
    raise CaseTimeout()


# ---------------------------------------------------------------------- BFS over histories
class Machine:
    """An implementation and its reference model, driven in lock step.

    start(ctx)      -> state object holding both
    ops(st)         -> list of JSON-able operations enabled in st (simplest first)
    step(ctx,st,op) -> apply op to both and compare; may replace fields of st in place
    observe(ctx,st) -> compare everything observable (runs after every step)
    canon(st)       -> canonical value; two states are merged only if equal
    clone(st)       -> independent copy (default deepcopy keeps internal aliasing)
    """

    def clone(self, st):
        return copy.deepcopy(st)

    def observe(self, ctx, st):
        pass


def bfs(ctx, name, machine, depth, max_states=None):
    """Exhaustive breadth-first search over operation histories up to ``depth``.

    Every history is a case (desc = {"m": name, "ops": [...]}); histories whose end states coincide are
    merged.  In replay mode only the named history is executed, from the initial state.
    """
    if ctx.only is not None:
        if ctx.only.get("m") != name:
            return
        hist = ctx.only["ops"]

        def go():
            st = machine.start(ctx)
            machine.observe(ctx, st)
            for op in hist:
                ctx.step()
                machine.step(ctx, st, op)
                machine.observe(ctx, st)

        ctx.run(ctx.only, go)
        return

    box = {}

    def init():
        box["st"] = machine.start(ctx)
        machine.observe(ctx, box["st"])

    ctx.run({"m": name, "ops": []}, init)
    if "st" not in box:
        return
    frontier = [([], box["st"])]
    seen = {digest(machine.canon(box["st"]))}
    ctx.state((name, machine.canon(box["st"])))
    total = 1
    for d in range(depth):
        nxt = []
        for hist, st in frontier:
            for k, op in enumerate(machine.ops(st)):
                if d == 0 and k % ctx.nshards != ctx.shard:
                    continue
                out = {}
                new_hist = hist + [op]
                before = ctx.nfail

                def go(st=st, op=op, out=out):
                    new = machine.clone(st)
                    machine.step(ctx, new, op)
                    machine.observe(ctx, new)
                    out["st"] = new

                ctx.step()
                ctx.run({"m": name, "ops": new_hist}, go)
                if ctx.nfail != before or "st" not in out:
                    continue  # do not explore beyond a disagreement
                c = machine.canon(out["st"])
                dg = digest(c)
                ctx.state((name, c))
                if dg in seen:
                    continue
                seen.add(dg)
                total += 1
                if d + 1 < depth:
                    nxt.append((new_hist, out["st"]))
                if max_states is not None and total > max_states:
                    raise RuntimeError(f"state cap hit in {name}")  # never silently capped
        frontier = nxt
    ctx.notes[f"{name}.depth"] = depth
    ctx.notes[f"{name}.ops"] = len(machine.ops(box["st"]))


# ---------------------------------------------------------------------- running a property
def _job(args):
    mod_name, sec_name, tier, seed, shard, nshards, only = args
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    t0 = time.time()
    mod = importlib.import_module(mod_name)
    fn = dict((s[0], s[1]) for s in mod.SECTIONS)[sec_name]
    ctx = Ctx(mod.ID, sec_name, tier, seed, shard, nshards, only)
    try:
        fn(ctx)
    except BaseException as err:  # noqa: BLE001
        ctx.current = ctx.current or {"section": sec_name}
        ctx.fail(f"section aborted: {type(err).__name__}: {err}\n{traceback.format_exc(limit=-8)}")
    res = ctx.result()
    res["wall"] = time.time() - t0
    return res


def load_known():
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return json.loads(path.read_text())["findings"]


def is_known(failure, known):
    for entry in known:
        if entry["property"] != failure["property"] or entry["section"] != failure["section"]:
            continue
        if entry.get("key") is not None:
            if entry["key"] == failure["key"]:
                return entry
        elif entry["case"] == json.loads(json.dumps(failure["case"])):
            return entry
    return None


def run_property(mod_name, tier, seed, replay=None):
    """Run all sections of a property, write evidence, print verdict lines; returns the exit code."""
    import importlib

    t0 = time.time()
    mod = importlib.import_module(mod_name)
    jobs = []
    if replay is not None:
        rep = json.loads(Path(replay).read_text())
        tier, seed = rep["tier"], rep["seed"]
        jobs.append((mod_name, rep["section"], tier, seed, 0, 1, rep["case"]))
    else:
        for sec in mod.SECTIONS:
            shards = sec[2] if len(sec) > 2 else 1
            if isinstance(shards, tuple):
                shards = shards[0] if tier == "quick" else shards[1]
            for s in range(shards):
                jobs.append((mod_name, sec[0], tier, seed, s, shards, None))
    nproc = min(len(jobs), int(os.environ.get("VERIF_JOBS", "8")))
    # A fork server-free pool: one fresh forked process per job, so that no job sees what another left.
    results = []
    if replay is not None or nproc <= 1:
        results = [_job(j) for j in jobs]
    else:
        ctxm = mp.get_context("fork")
        for name in ("pandas", "scipy.stats", "scipy.interpolate", "astropy.coordinates", "astropy.table", "astropy.cosmology", "astropy.io.fits"):
            try:  # loaded once for all jobs (the package under test is not)
                importlib.import_module(name)
            except ImportError:
                pass
        with ctxm.Pool(nproc, maxtasksperchild=1) as pool:
            handles = [pool.apply_async(_job, (j,)) for j in jobs]
            deadline = t0 + (820 if tier == "quick" else 24 * 3600)
            for j, h in zip(jobs, handles):
                try:
                    results.append(h.get(timeout=max(1.0, deadline - time.time())))
                    if results[-1]["nfail"] and os.environ.get("VERIF_FAIL_FAST"):
                        break
                except mp.TimeoutError:
                    results.append(_dead(mod.ID, j, "the section did not finish in time"))
                except BaseException as err:  # noqa: BLE001
                    results.append(_dead(mod.ID, j, f"the section's process failed: {err!r}"))

    states = set()
    outcomes = Counter()
    samples, failures, notes = [], [], {}
    known = load_known()
    cases = transitions = compared = nfail = nknown = 0
    per_section = {}
    for r in results:
        states |= r["states"]
        outcomes.update(r["outcomes"])
        cases += r["cases"]
        transitions += r["transitions"]
        compared += r["compared"]
        nfail += r["nfail"]
        notes.update(r["notes"])
        failures.extend(r["failures"])
        for f in r["failures"]:
            if is_known(f, known):
                nknown += r["keyed"][f["key"]] if f["key"] is not None else 1
        p = per_section.setdefault(r["section"], {"cases": 0, "transitions": 0, "comparisons": 0, "states": 0, "cpu_s": 0.0})
        p["cases"] += r["cases"]
        p["transitions"] += r["transitions"]
        p["comparisons"] += r["compared"]
        p["states"] += len(r["states"])
        p["cpu_s"] = round(p["cpu_s"] + r["wall"], 2)
        samples.extend(r["samples"][:1])

    new, seen_known = [], {}
    for f in failures:
        entry = is_known(f, known)
        if entry is None:
            new.append(f)
        else:
            seen_known[json.dumps(entry, sort_keys=True)] = entry
    for entry in seen_known.values():
        print(f"KNOWN-FINDING: property={entry['property']} {entry['what']}")

    new.sort(key=lambda f: len(json.dumps(f["case"])))  # shortest counterexample first
    code = 0
    if new:
        code = 1
        f = new[0]
        rdir = EVIDENCE / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{mod.ID}.json"
        path.write_text(
            json.dumps(
                {
                    "property": mod.ID,
                    "section": f["section"],
                    "case": f["case"],
                    "tier": tier,
                    "seed": seed,
                    "message": f["message"],
                    "others": [{"section": g["section"], "case": g["case"], "message": g["message"][:400]} for g in new[1:12]],
                    "how": f"bash /verif/run.sh {mod.ID} --replay {path}",
                },
                indent=1,
            )
        )
        print(f"[{mod.ID}] section={f['section']} case={json.dumps(f['case'])}")
        print(f"[{mod.ID}] {f['message']}")
        for g in new[1:6]:
            print(f"[{mod.ID}] also: section={g['section']} case={json.dumps(g['case'])[:300]} :: {g['message'].splitlines()[0][:300]}")
        print(f"VIOLATION property={mod.ID} replay={path}")

    if replay is None:
        # Vacuity guard: an exploration that reached one outcome only proves nothing.
        level = getattr(mod, "LEVEL", "model_checking")
        coverage = {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": cases,
            "comparisons": compared,
            "distinct_outcomes": len(outcomes),
            "outcomes": dict(sorted(outcomes.items())[:60]),
            "samples": samples[:8],
            "exhaustive": True,
            "rule": getattr(mod, "RULE", ""),
            "bounds": notes,
            "sections": per_section,
        }
        if level in ("exploration", "fault_enumeration"):
            coverage["evaluations"] = cases
            coverage["distinct_nontrivial"] = len(states)
        ev = {
            "property": mod.ID,
            "tier": tier,
            "seed": seed,
            "level": level,
            "coverage": coverage,
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - t0, 2),
            "violations": nfail - nknown,
        }
        EVIDENCE.mkdir(parents=True, exist_ok=True)
        (EVIDENCE / f"{mod.ID}.json").write_text(json.dumps(ev, indent=1, default=str))
        print(
            f"[{mod.ID}] tier={tier} cases={cases} states={len(states)} transitions={transitions} "
            f"comparisons={compared} outcomes={len(outcomes)} violations={ev['violations']} wall={ev['wall_s']}s"
        )
    elif code == 0:
        print(f"[{mod.ID}] replay: no disagreement")
    return code


def _dead(prop, job, why):
    return {
        "section": job[1],
        "cases": 0,
        "transitions": 0,
        "compared": 0,
        "states": set(),
        "outcomes": Counter(),
        "samples": [],
        "failures": [{"property": prop, "section": job[1], "case": {"shard": job[4]}, "key": None, "message": why}],
        "nfail": 1,
        "keyed": Counter(),
        "notes": {},
        "wall": 0.0,
    }
