"""A02: wrapped samplers and dust maps hand every sample its own inputs and outputs."""

import itertools
import os
import shutil
import tempfile
from pathlib import Path
from unittest import mock

import numpy as np

ID = "A02"
RULE = (
    "every choice of output and conditional columns, of values per sample, of number of samples and of history of samplings with given or no "
    "generators, for stand-in flows (that record what they are asked) and real ones; every prior over a menu of distributions, every history of "
    "sample sizes and seeds; every ordered selection of coordinates for every kind of dust map, and every state of the dust map's directory; a state is one setup"
)
ASSUMPTIONS = [
    "flows, bilby's priors and sfdmap2 themselves are trusted; their own samples (equally seeded) are the reference",
    "downloads are replaced by a stand-in that unpacks small maps",
]


class StubFlow:
    """A flow whose samples are a known function of the seed, the row and the conditions."""

    def __init__(self, cols, conds, keep):
        self.data_columns = tuple(cols)
        self.conditional_columns = tuple(conds) if conds else (() if keep else None)
        self.keep = keep
        self.calls = []

    def sample(self, nsamples=1, conditions=None, save_conditions=True, seed=None):
        import pandas as pd

        self.calls.append((nsamples, None if conditions is None else {c: list(conditions[c]) for c in conditions}, seed))
        rows = [{}] if conditions is None else [dict(zip(conditions.columns, r)) for r in conditions.values.tolist()]
        rows = [r for r in rows for _ in range(nsamples)]
        base = 1000.0 * len(self.calls)
        out = {c: [base + 100 * j + k + sum((2 + i) * 0.01 * r[q] for i, q in enumerate(self.conditional_columns or ())) for k, r in enumerate(rows)] for j, c in enumerate(self.data_columns)}
        df = pd.DataFrame(out)
        if self.keep and conditions is not None and save_conditions:
            for q in self.conditional_columns:
                df[q] = [r[q] for r in rows]
            df.index = [5] * len(rows)
        return df


def sec_pzflow(ctx):
    from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode
    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    vals = {"m": [3.0, 1.0, 2.0, 5.0], "z": [0.5, 0.250000375, 4, 0.125]}

    def stub(cols, conds, keep, hist, kinds):
        ctx.step()
        flow = StubFlow(cols, conds, keep)
        tot = sum(n for n, _ in hist)
        rows = {c: [vals[c][(k + j) % 4] for k in range(tot)] for j, c in enumerate(conds)}
        args = {c: (vals[c][0] if kinds[j] == "const" else GivenValueList(rows[c])) for j, c in enumerate(conds)}
        node = PZFlowNode(flow, node_label="p", **args)
        # A downstream node sees the outputs of the same sample.
        last = FunctionNode(lambda a: 2 * a, a=getattr(node, cols[-1]), node_label="f")
        at, seeds = 0, []
        rng = np.random.default_rng(3)
        for k, (n, how) in enumerate(hist):
            g = {"none": None, "shared": rng, "fresh": np.random.default_rng(3), "other": np.random.default_rng(4)}[how]
            st = last.sample_parameters(num_samples=n, rng_info=g)
            if not ctx.eq(len(flow.calls), k + 1, "number of times the flow was sampled"):
                return
            ask, given, seed = flow.calls[-1]
            want = {c: [vals[c][0] if kinds[j] == "const" else rows[c][at + i] for i in range(n)] for j, c in enumerate(conds)}
            if conds:
                ctx.eq(ask * len(next(iter(given.values()))), n, "number of samples asked for")
                ctx.eq({c: given[c] for c in conds}, want, "conditions handed to the flow")
            else:
                ctx.eq(ask, n, "number of samples asked for")
            ctx.check((seed is None) == (g is None), lambda: f"seed {seed} with generator {how}")
            seeds.append((how, seed))
            for j, c in enumerate(cols):
                exp = [1000.0 * (k + 1) + 100 * j + i + sum((2 + q) * 0.01 * want[d][i] for q, d in enumerate(conds)) for i in range(n)]
                ctx.eq(np.asarray(st[f"p.{c}"]).tolist(), exp if n > 1 else exp[0], f"column {c} of {n} samples")
            ctx.eq((np.asarray(st["f.function_node_result"]) / 2).tolist(), np.asarray(st[f"p.{cols[-1]}"]).tolist(), "downstream values")
            ctx.eq(sorted(st["p"].keys()), sorted(list(cols) + list(conds)), "parameters of the node")
            at += n
        fresh = [s for h, s in seeds if h == "fresh"]
        shared = [s for h, s in seeds if h == "shared"]
        other = [s for h, s in seeds if h == "other"]
        ctx.check(len(set(fresh)) <= 1, lambda: f"equally seeded generators gave the flow seeds {fresh}")
        ctx.check(len(set(shared)) == len(shared), lambda: f"one generator gave the flow equal seeds {shared}")
        ctx.check(not set(fresh) & set(other), lambda: f"differently seeded generators gave the flow equal seeds {fresh}, {other}")
        ctx.check(all(s is None or 0 <= s < 2**32 for _, s in seeds), lambda: f"seeds {seeds}")
        ctx.state((cols, conds, keep, hist, kinds))
        ctx.outcome("conditional" if conds else "plain")

    menus = list(itertools.product((1, 2, 3), ("none", "shared", "fresh", "other")))
    for cols in (("x",), ("x", "y"), ("y", "x", "w")):
        for conds in ((), ("m",), ("m", "z"), ("z", "m")):
            for keep in (False, True):
                for kinds in itertools.product(("list", "const"), repeat=len(conds)):
                    for depth in (1, 2) if ctx.tier == "quick" else (1, 2, 3):
                        for hist in itertools.product(menus, repeat=depth):
                            if depth == 2 and ctx.tier == "quick" and (len(cols) == 3 or (keep and hist[0][0] != 2)):
                                continue
                            ctx.case(["stub", cols, conds, keep, kinds, hist], stub, cols, conds, keep, hist, kinds)

    def missing(conds, given):
        ctx.step()
        ok = set(conds) <= set(given)
        make = lambda: PZFlowNode(StubFlow(("x",), conds, True), node_label="p", **{c: 1.0 for c in given})  # noqa: E731
        if ok:
            make()
        else:
            ctx.raises(ValueError, make, f"conditions {conds} from {given}")

    for conds in (("m",), ("m", "z")):
        for k in range(3):
            for given in itertools.combinations(("m", "z"), k):
                ctx.case(["missing", conds, given], missing, conds, given)

    # Two nodes of one graph draw from the same generator, in an order that the caller does not control.
    def two(n, seed):
        ctx.step()
        a, b = StubFlow(("x",), (), False), StubFlow(("x",), (), False)
        na, nb = PZFlowNode(a, node_label="a"), PZFlowNode(b, node_label="b")
        top = FunctionNode(lambda u, v: u - v, u=na.x, v=nb.x, node_label="t")
        for _ in range(3):
            top.sample_parameters(num_samples=n, rng_info=np.random.default_rng(seed))
        ctx.check(a.calls[-1][2] != b.calls[-1][2], "two nodes gave their flows the same seed")
        ctx.eq([len(set(c[2] for c in f.calls)) for f in (a, b)], [1, 1], "repeated graphs")
        ctx.eq([len(a.calls), len(b.calls)], [3, 3], "number of samplings")

    for n, seed in itertools.product((1, 2, 5), range(6)):
        ctx.case(["two", n, seed], two, n, seed)


def sec_flow(ctx):
    from pzflow import Flow
    from pzflow.bijectors import Reverse, RollingSplineCoupling

    from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    where = Path(tempfile.mkdtemp(prefix="mcflow_", dir=os.environ.get("VERIF_SCRATCH")))
    seen = {}

    class Spy:
        """Passes everything on to the flow, and records the seed."""

        def __init__(self, flow):
            self.flow, self.seeds = flow, []

        def __getattr__(self, name):
            return getattr(self.flow, name)

        def sample(self, *args, **kw):
            self.seeds.append(kw.get("seed"))
            return self.flow.sample(*args, **kw)

    def make(kind):
        if kind not in seen:
            if kind == "plain":
                seen[kind] = Flow(("x", "y"), Reverse())
            elif kind == "file":
                Flow(("x", "y"), Reverse()).save(str(where / "f.pkl"))
                seen[kind] = Flow(file=str(where / "f.pkl"))
            else:
                seen[kind] = Flow(("x",), RollingSplineCoupling(1, n_conditions=1), conditional_columns=("z",), seed=2)
        return seen[kind]

    def go(kind, n, seed):
        ctx.step()
        import pandas as pd

        flow = make(kind)
        spy = Spy(flow)
        z = [0.5, 0.25, 3.0, 1.0][:n]
        args = {"z": GivenValueList(z)} if kind == "cond" else {}
        if kind == "file":
            node = PZFlowNode.from_file(where / "f.pkl", node_label="p")
            node.flow = spy = Spy(node.flow)
        else:
            node = PZFlowNode(spy, node_label="p", **args)
        st = node.sample_parameters(num_samples=n, rng_info=np.random.default_rng(seed))
        s = spy.seeds[-1]
        ref = flow.sample(1, conditions=pd.DataFrame({"z": z}), seed=s) if kind == "cond" else flow.sample(n, seed=s)
        for c in flow.data_columns:
            want = np.asarray(ref[c], dtype=float)
            ctx.eq(np.asarray(st[f"p.{c}"], dtype=float).tolist(), want.tolist() if n > 1 else float(want[0]), f"column {c}", 1e-6)
        ctx.state((kind, n, seed))
        ctx.outcome(kind)

    for kind in ("plain", "file", "cond"):
        for n in (1, 2, 4):
            for seed in (0, 1, 5):
                ctx.case([kind, n, seed], go, kind, n, seed)
    shutil.rmtree(where, ignore_errors=True)


# ---------------------------------------------------------------------- bilby
def sec_bilby(ctx):
    from bilby.core.prior import ConditionalPriorDict, ConditionalUniform, Constraint, Cosine, DeltaFunction, Gaussian, PriorDict, Uniform
    from bilby.core.utils import random as brandom

    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode

    def narrow(reference_params, a):
        return {"minimum": a, "maximum": a + 0.01}

    def diff(d):
        d = dict(d)
        d["gap"] = d["a"] - d["b"]
        return d

    menu = {
        "uniform": lambda: {"a": Uniform(0, 5, "a"), "b": Uniform(0, 10, "b")},
        "order": lambda: {"b": Cosine(-1, 1, "b"), "a": Gaussian(3, 0.5, "a")},
        "delta": lambda: {"a": DeltaFunction(3.0, "a"), "b": Uniform(-1, 0, "b")},
        "number": lambda: {"a": 4.5, "b": Uniform(-1, 0, "b")},
        "one": lambda: {"a": Uniform(0, 5, "a")},
        "dict": lambda: PriorDict({"a": Uniform(0, 5, "a"), "b": Uniform(0, 10, "b")}),
        "conditional": lambda: ConditionalPriorDict({"a": Uniform(0, 5, "a"), "b": ConditionalUniform(condition_func=narrow, minimum=0, maximum=0.01, name="b")}),
        "constrained": lambda: PriorDict({"a": Uniform(0, 5, "a"), "b": Uniform(0, 5, "b"), "gap": Constraint(0, 10)}, conversion_function=diff),
    }

    def go(kind, how, hist):
        ctx.step()
        priors = menu[kind]()
        sampled = [k for k in priors if k != "gap"]
        node = BilbyPriorNode(prior=priors, seed=11 if how == "init" else None, node_label="b")
        ctx.eq(list(node.outputs), sampled, "outputs")
        last = FunctionNode(lambda a: 3 * a, a=node.a, node_label="f")
        seed = 11
        if how == "set":
            node.set_seed(seed)
        got = []
        for op, v in hist:
            if op == "seed":
                node.set_seed(v)
                got.append(None)
                continue
            st = last.sample_parameters(num_samples=v, rng_info=np.random.default_rng(0) if op == "rng" else None)
            got.append({k: np.asarray(st[f"b.{k}"]).tolist() for k in sampled})
            ctx.eq((np.asarray(st["f.function_node_result"]) / 3).tolist(), got[-1]["a"], "downstream values")
            ctx.eq(sorted(st["b"].keys()), sorted(sampled), "parameters of the node")
        # The reference: bilby itself, equally seeded.
        ref = menu[kind]()
        ref = ref if isinstance(ref, PriorDict) else PriorDict(ref)
        brandom.seed(seed)
        for k, (op, v) in enumerate(hist):
            if op == "seed":
                brandom.seed(v)
                continue
            s = ref.sample(v)
            want = {c: np.asarray(s[c], dtype=float).tolist() for c in sampled}
            ctx.eq(got[k], want if v > 1 else {c: x[0] for c, x in want.items()}, f"step {k} of {hist} for {kind}")
            if kind == "constrained":
                ctx.check(bool(np.all(np.asarray(got[k]["a"]) >= np.asarray(got[k]["b"]))), "a sample violates the constraint")
            if kind == "conditional":
                gap = np.asarray(got[k]["b"]) - np.asarray(got[k]["a"])
                ctx.check(bool(np.all((gap >= -1e-9) & (gap <= 0.01 + 1e-9))), "a sample ignores the condition")
        ctx.state((kind, how, hist))
        ctx.outcome(kind)

    ops = [("none", 1), ("none", 2), ("none", 5), ("rng", 1), ("rng", 3), ("seed", 0), ("seed", 7)]
    for kind in menu:
        for how in ("init", "set"):
            for depth in (1, 2, 3):
                for hist in itertools.product(ops, repeat=depth):
                    if hist[-1][0] != "seed" and (depth < 3 or how == "init"):
                        ctx.case(["bilby", kind, how, hist], go, kind, how, hist)

    def empty(how):
        ctx.step()
        ctx.raises(ValueError, lambda: BilbyPriorNode(prior=PriorDict() if how else {}), "an empty prior")

    for how in (False, True):
        ctx.case(["empty", how], empty, how)


# ---------------------------------------------------------------------- dust maps
SKY = [(0.0, 0.0), (359.5, -0.001), (120.0, 45.5), (200.25, -89.0), (45.0, 90.0), (10.0, -30.0)]


def sec_dust(ctx):
    from astropy import units as u

    from lightcurvelynx.astro_utils.dustmap import ConstantHemisphereDustMap, DustEBV, DustmapWrapper
    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    class Recorder:
        def __init__(self, bands):
            self.bands, self.calls = bands, []

        def query(self, coords):
            self.calls.append(coords)
            ra, dec = coords.icrs.ra.deg, coords.icrs.dec.deg
            v = np.asarray(ra) * 1e-3 + np.asarray(dec) * 0.25
            return v if not self.bands else np.stack([v, 2 * v])

    def f(p):
        return p[0] * 1e-3 + p[1] * 0.25

    def args(ids, fixed):
        ra = [SKY[i][0] for i in ids]
        dec = [SKY[ids[0] if fixed else i][1] for i in ids]
        pts = list(zip(ra, dec))
        if len(ids) == 1:
            return pts, ra[0], dec[0]
        return pts, GivenValueList(ra), dec[0] if fixed else GivenValueList(dec)

    def go(kind, ids, fixed):
        ctx.step()
        pts, ra, dec = args(ids, fixed)
        n = len(ids)
        if kind == "func":
            node, want = DustEBV(lambda ra, dec: np.asarray(ra) * 1e-3 + np.asarray(dec) * 0.25, ra=ra, dec=dec, node_label="d"), [f(p) for p in pts]
        elif kind == "map":
            node, want = DustmapWrapper(Recorder(False), ra=ra, dec=dec, node_label="d"), [f(p) for p in pts]
        elif kind == "scaled":
            node, want = DustmapWrapper(Recorder(False), ra=ra, dec=dec, ebv_func=lambda v: 10 * v + 1, node_label="d"), [10 * f(p) + 1 for p in pts]
        elif kind == "bands":
            node, want = DustmapWrapper(Recorder(True), ra=ra, dec=dec, ebv_func=lambda v: v[1] + v[0], node_label="d"), [3 * f(p) for p in pts]
        else:
            node, want = DustmapWrapper(ConstantHemisphereDustMap(0.75, 0.125), ra=ra, dec=dec, node_label="d"), [0.75 if p[1] >= 0 else 0.125 for p in pts]
        top = FunctionNode(lambda e: 3.1 * e, e=node.ebv, node_label="t")
        st = top.sample_parameters(num_samples=n)
        ctx.eq(np.asarray(st["d.ebv"], dtype=float).tolist(), want if n > 1 else want[0], f"E(B-V) at {pts} ({kind})", 1e-9, 1e-9)
        ctx.eq(np.asarray(st["t.function_node_result"], dtype=float).tolist(), (3.1 * np.array(want)).tolist() if n > 1 else 3.1 * want[0], "downstream values", 1e-9, 1e-9)
        ctx.eq(np.asarray(st["d.ra"]).tolist(), [p[0] for p in pts] if n > 1 else pts[0][0], "recorded ra")
        if kind in ("map", "scaled", "bands"):
            for c in node._dust_map.calls if hasattr(node, "_dust_map") else []:
                ctx.check(c.ra.unit == u.deg, "coordinates not in degrees")
        ctx.state((kind, ids, fixed))
        ctx.outcome(kind)

    for kind in ("func", "map", "scaled", "bands", "hemisphere"):
        for n in (1, 2, 3, 4):
            for ids in itertools.permutations(range(6), n):
                if n < 4 or (ids[0] < 3 or ctx.tier == "thorough"):
                    for fixed in (False, True) if n == 2 else (False,):
                        ctx.case(["dust", kind, ids, fixed], go, kind, ids, fixed)

    def direct(ids, cont):
        ctx.step()
        m = ConstantHemisphereDustMap(0.75, 0.125)
        ra, dec = cont([SKY[i][0] for i in ids]), cont([SKY[i][1] for i in ids])
        ctx.eq(np.asarray(m.compute_ebv(ra, dec)).tolist(), [0.75 if SKY[i][1] >= 0 else 0.125 for i in ids], f"hemispheres of {ids}")

    for n in (1, 2, 3):
        for ids in itertools.permutations(range(6), n):
            for cont in (list, np.array, tuple):
                ctx.case(["direct", ids, cont.__name__], direct, ids, cont)

    def refuse(ra, dec, kind):
        ctx.step()
        make = {"func": lambda: DustEBV(lambda ra, dec: 0.1, ra=ra, dec=dec), "map": lambda: DustmapWrapper(Recorder(False), ra=ra, dec=dec)}[kind]
        if ra is None or dec is None:
            ctx.raises(ValueError, make, f"ra={ra}, dec={dec}")
        else:
            make()

    for ra, dec, kind in itertools.product((None, 0.0, 10.0), (None, 0.0, -5.0), ("func", "map")):
        ctx.case(["refuse", ra, dec, kind], refuse, ra, dec, kind)
    ctx.case(["no map"], lambda: ctx.raises(ValueError, lambda: DustmapWrapper(None, ra=1.0, dec=2.0).sample_parameters(), "no dust map"))


def write_maps(path, seed):
    from astropy.io import fits

    path.mkdir(parents=True, exist_ok=True)
    for name, sign in (("ngp", 1), ("sgp", -1)):
        data = ((np.arange(64 * 64).reshape(64, 64) * (7 + seed) + (3 if sign > 0 else 1000)) % 997 / 100.0).astype(np.float32)
        hdu = fits.PrimaryHDU(data)
        hdu.header["CRPIX1"], hdu.header["CRPIX2"], hdu.header["LAM_SCAL"], hdu.header["LAM_NSGP"] = 32.5, 32.5, 32, sign
        hdu.writeto(path / f"SFD_dust_4096_{name}.fits", overwrite=True)


def sec_sfd(ctx):
    import pooch
    from sfdmap2 import sfdmap

    from lightcurvelynx.astro_utils import dustmap
    from lightcurvelynx.astro_utils.dustmap import SFDMap
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    root = Path(tempfile.mkdtemp(prefix="mcsfd_", dir=os.environ.get("VERIF_SCRATCH")))
    write_maps(root / "maps", 0)
    ref = sfdmap.SFDMap(str(root / "maps"))

    def values(ids, how):
        ctx.step()
        n = len(ids)
        ra, dec = [SKY[i][0] for i in ids], [SKY[i][1] for i in ids]
        d = root / "maps"
        node = SFDMap(str(d) if how == "str" else d, ra=GivenValueList(ra) if n > 1 else ra[0], dec=GivenValueList(dec) if n > 1 else dec[0], node_label="d")
        st = node.sample_parameters(num_samples=n)
        want = [float(ref.ebv(a, b)) for a, b in zip(ra, dec)]
        ctx.eq(np.asarray(st["d.ebv"], dtype=float).tolist(), want if n > 1 else want[0], f"E(B-V) of {ids}", 1e-6)
        ctx.state(("values", ids, how))
        ctx.outcome("values")

    for n in (1, 2, 3):
        for ids in itertools.permutations(range(6), n):
            ctx.case(["values", ids, "str" if n % 2 else "path"], values, ids, "str" if n % 2 else "path")

    FILES = ("SFD_dust_4096_ngp.fits", "SFD_dust_4096_sgp.fits")

    def state(here, there, answer, default, times):
        """The directory (None: absent) and its extracted subdirectory hold these files; the server answers once per request."""
        ctx.step()
        tmp = Path(tempfile.mkdtemp(dir=root))
        d = tmp / "a" / "b"
        sub = d / "sfddata-master"
        for path, files, kind in ((d, here, 1), (sub, there, 2)):
            if files is not None:
                write_maps(path, kind)
                for f in FILES:
                    if f not in files:
                        (path / f).unlink()
        calls = []

        def retrieve(url=None, known_hash=None, processor=None, **kw):
            calls.append((url, known_hash))
            if not d.is_dir():
                raise OSError("the directory to extract to is missing")
            if answer == "fail":
                raise OSError("no network")
            write_maps(sub, 2)
            if answer == "half":
                (sub / FILES[1]).unlink()
            return [str(sub / f) for f in FILES if (sub / f).exists()]

        if default and not hasattr(SFDMap, "_default_map_dir"):
            return
        patches = [mock.patch.object(pooch, "retrieve", retrieve)]
        if hasattr(dustmap, "retrieve"):
            patches.append(mock.patch.object(dustmap, "retrieve", retrieve))
        if default:
            patches.append(mock.patch.object(SFDMap, "_default_map_dir", d))
        for q in patches:
            q.start()
        try:
            for k in range(times):
                before = sorted(str(p) for p in tmp.rglob("*.fits"))
                whole = here is not None and len(here) == 2
                sub_whole = (there is not None and len(there) == 2) or (k > 0 and answer == "ok" and bool(calls))
                n0 = len(calls)
                try:
                    node = SFDMap(None if default else d, ra=120.0, dec=45.5, node_label="d")
                except (ValueError, OSError) as exc:
                    ctx.check(not whole and not sub_whole and answer != "ok", lambda: f"refused with {exc!r} (directory {here}, extracted {there}, server {answer}, time {k})")
                    continue
                ctx.check(whole or sub_whole or answer == "ok", "loaded although files are missing")
                ctx.check(len(calls) == n0 or not (whole or sub_whole), lambda: f"downloaded again (directory {here}, extracted {there}, time {k})")
                now = sorted(str(p) for p in tmp.rglob("*.fits"))
                ctx.check(set(before) <= set(now), "files were removed")
                want = float(sfdmap.SFDMap(str(d if whole else sub)).ebv(120.0, 45.5))
                ctx.eq(float(node.sample_parameters()["d.ebv"]), want, "E(B-V)", 1e-6)
            if calls:
                ctx.check(all(h for _, h in calls), "downloads are not checked against a known hash")
        finally:
            for q in patches:
                q.stop()
            shutil.rmtree(tmp, ignore_errors=True)
        ctx.state((here, there, answer, default, times))
        ctx.outcome(answer)

    subsets = [None, (), FILES[:1], FILES[1:], FILES]
    for here in subsets:
        for there in subsets if here is not None else [None]:
            for answer in ("ok", "half", "fail"):
                for default in (False, True):
                    for times in (1, 2):
                        ctx.case(["state", here, there, answer, default, times], state, here, there, answer, default, times)
    ctx.case(["refuse"], lambda: ctx.raises(ValueError, lambda: SFDMap(root / "maps"), "no coordinates"))
    shutil.rmtree(root, ignore_errors=True)


SECTIONS = [
    ("pzflow", sec_pzflow, (4, 8)),
    ("flow", sec_flow, (1, 1)),
    ("bilby", sec_bilby, (2, 4)),
    ("dust", sec_dust, (2, 4)),
    ("sfd", sec_sfd, (2, 4)),
]
