"""M02: band fluxes are each observation's own filter applied to the model at that observation's time."""

import itertools

import numpy as np

from mc.core import Machine, bfs
from mc.props.m01 import EFFECTS, build, make_effect, reference
from mc import memory

ID = "M02"
RULE = (
    "every sequence of up to three (time, filter) observations over four passbands, in every order, for SED and bandflux "
    "models with every kind of group, effects, samples and redshifts, against the passband applied to the reference SED "
    "at that time, or the model's formula; histories of evaluations on one model; a state is one configuration"
)
ASSUMPTIONS = ["the integral of one passband over one spectrum is decided by P01"]

TABLES = {
    "S_g": ("S", "g", [[1000.0, 0.2], [1300.0, 0.9], [1700.0, 0.4]]),
    "S_r": ("S", "r", [[1500.0, 0.5], [1900.0, 0.8], [2600.0, 0.1]]),
    "T_g": ("T", "g", [[1200.0, 0.7], [1450.0, 0.2]]),
    "T_z": ("T", "z", [[2500.0, 0.3], [3100.0, 1.0], [4000.0, 0.9]]),
}


def bands(names=tuple(TABLES)):
    from lightcurvelynx.astro_utils.passbands import Passband

    return [Passband(np.array(t), s, f, delta_wave=50.0, trim_quantile=None) for s, f, t in (TABLES[n] for n in names)]


def pb_group(names=tuple(TABLES)):
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    return PassbandGroup(bands(names))


def bandflux_classes():
    from lightcurvelynx.effects.effect_model import EffectModel
    from lightcurvelynx.models.physical_model import BandfluxModel

    class Bands(BandfluxModel):
        def __init__(self, amp, **kw):
            super().__init__(**kw)
            self.add_parameter("amp", amp)

        def compute_bandflux(self, times, filters, state, rng_info=None):
            amp = self.get_param(state, "amp")
            return np.array([bflux(amp, t, f) for t, f in zip(times, filters)], dtype=float)

    class BAdd(EffectModel):
        def __init__(self, name, c, **kw):
            super().__init__(**kw)
            self.name = name
            self.add_effect_parameter(name, c)

        def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kw):
            return bandfluxes + np.array([kw[self.name] * (t + code(f)) for t, f in zip(times, filters)], dtype=float) + kw["amp"]

    class BMul(EffectModel):
        def __init__(self, name, c, **kw):
            super().__init__(**kw)
            self.name = name
            self.add_effect_parameter(name, c)

        def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kw):
            return bandfluxes * np.array([kw[self.name] + code(f) + t / 50.0 for t, f in zip(times, filters)], dtype=float)

    return Bands, BAdd, BMul


def code(f):
    return {"g": 0.1, "r": 0.2, "z": 0.3, "S_g": 0.4, "S_r": 0.5, "T_g": 0.6, "T_z": 0.7}[str(f)]


def bflux(amp, t, f):
    return amp * (1.0 + t / 10.0) + 3.0 * code(f)


BEFF = {"badd": ("add", 0.7), "bmul": ("mul", 1.3), "bmul2": ("mul", 0.4), "badd2": ("add", 2.5)}


def make_beffect(name, c=None, rest=True):
    _, BAdd, BMul = bandflux_classes()
    kind, d = BEFF[name]
    return (BAdd if kind == "add" else BMul)(name, d if c is None else c, rest_frame=rest)


def ref_band(amp, effects, t, f):
    v = bflux(amp, t, f)
    for name, c in effects:
        if BEFF[name][0] == "add":
            v = v + c * (t + code(f)) + amp
        else:
            v = v * (c + code(f) + t / 50.0)
    return v


def full(f):
    return {"r": "S_r", "z": "T_z"}.get(f, f)


def ref_sed(pbs, p, apply_z, rule, effects, t, f):
    pb = pbs[full(f)]
    return float(pb.fluxes_to_bandflux(reference(p, apply_z, rule, effects, [t], list(pb.waves)))[0])


SEQS = [s for r in (0, 1, 2, 3) for s in itertools.product(("S_g", "r", "T_g", "z"), repeat=r)]
TIMESETS = [[10.0, 0.0, 3.0], [3.0, 3.0, 3.0]]
ZS = [None, 0.5]


def frozen(v, kind):
    if kind == "list":
        return list(v)
    a = np.array(v, dtype=object) if kind == "object" else (np.array(v) if len(v) else np.array(v, dtype="<U3"))
    a.setflags(write=False)
    return a


def sec_sed(ctx):
    """SED models."""
    seqs = SEQS if ctx.tier == "thorough" else [s for s in SEQS if len(s) < 3 or len(set(s)) == 3 or s[0] == s[2]]
    for z, eff, seq in itertools.product(ZS, [(), ("rmul", "oadd")], seqs):

        def go(z=z, eff=eff, seq=seq):
            group = pb_group()
            pbs = {pb.full_name: pb for pb in bands()}
            rows = [{"amp": 2.0 + i, "lo": None, "hi": 2000.0 + 500 * i, "z": None if z is None else z + i, "t0": 4.0 * i} for i in range(4)]
            rule = ("last", 0)
            from lightcurvelynx.math_nodes.given_sampler import GivenValueList

            for n in (1, 2, 4) if len(seq) == 3 else (1, 2):
                p = {k: (GivenValueList([r[k] for r in rows[:n]]) if n > 1 and rows[0][k] is not None else rows[0][k]) for k in rows[0]}
                m = build(p, rule)
                for e in eff:
                    m.add_effect(make_effect(e))
                state = m.sample_parameters(num_samples=n)
                for times in TIMESETS:
                    ts = times[: len(seq)]
                    want = np.array([[ref_sed(pbs, r, z is not None, rule, [(e, EFFECTS[e][2]) for e in eff], t, f) for t, f in zip(ts, seq)] for r in rows[:n]])
                    want = want.reshape((n, len(seq)))
                    for kind in ("array", "list", "object"):
                        got = m.evaluate_bandfluxes(group, frozen(ts, "array") if ts else np.array([]), frozen(seq, kind), state)
                        ctx.step()
                        ctx.eq(got, want[0] if n == 1 else want, f"z={z} effects={eff} filters={seq} times={ts} n={n} {kind}")
                    # One observation at a time
                    for k, (t, f) in enumerate(zip(ts, seq)):
                        one = m.evaluate_bandfluxes(group, np.array([t]), [f], state)
                        ctx.eq(np.asarray(one).reshape(n), want[:, k], f"observation {k} alone")
                        ctx.step()
                    for i in range(n):
                        ctx.eq(m.evaluate_bandfluxes(group, np.array(ts), list(seq), state.extract_single_sample(i)), want[i], f"sample {i} alone")
            ctx.state((z, eff, seq))
            ctx.outcome(f"sed n={len(seq)} distinct={len(set(seq))}")

        ctx.case([z, list(eff), list(seq)], go)


def sec_bandflux(ctx):
    """Bandflux models, with every sequence of bandflux effects."""
    effs = [s for r in range(ctx.pick(3, 4) + 1) for s in itertools.permutations(BEFF, r)]
    for eff in effs:

        def go(eff=eff):
            from lightcurvelynx.math_nodes.given_sampler import GivenValueList

            Bands, _, _ = bandflux_classes()
            group = pb_group()
            for n in (1, 3):
                amps = [2.0, 5.0, 0.5][:n]
                c0 = [1.1, 0.6, 2.2][:n]
                m = Bands(GivenValueList(amps) if n > 1 else amps[0], node_label="m")
                objs = []
                for k, e in enumerate(eff):
                    c = (GivenValueList(c0) if n > 1 else c0[0]) if k == 0 else None
                    objs.append(make_beffect(e, c, rest=bool(k % 2)))
                    m.add_effect(objs[-1])
                ctx.check([id(e) for e in m.list_effects()] == [id(e) for e in objs], "list_effects is the order of application")
                state = m.sample_parameters(num_samples=n)
                for seq in SEQS:
                    for times in TIMESETS[:1]:
                        ts = times[: len(seq)]
                        want = np.array([[ref_band(amps[i], [(e, c0[i] if k == 0 else BEFF[e][1]) for k, e in enumerate(eff)], t, f) for t, f in zip(ts, seq)] for i in range(n)])
                        want = want.reshape((n, len(seq)))
                        got = m.evaluate_bandfluxes(group, frozen(ts, "array") if ts else np.array([]), frozen(seq, "array"), state)
                        ctx.step()
                        ctx.eq(got, want[0] if n == 1 else want, f"effects={eff} filters={seq} n={n}")
                        got = m.evaluate_bandfluxes(None, np.array(ts), list(seq), state)
                        ctx.eq(got, want[0] if n == 1 else want, f"effects={eff} filters={seq} n={n}, no group")
            ctx.state(eff)
            ctx.outcome(f"bandflux effects={len(eff)}")

        ctx.case(list(eff), go)


def sec_forms(ctx):
    """Ways of giving the passbands and filters, and refusals."""
    for name, model, z in itertools.product(TABLES, ("sed", "band"), (None, 0.5)):

        def go(name=name, model=model, z=z):
            pbs = {pb.full_name: pb for pb in bands()}
            p = {"amp": 2.0, "lo": None, "hi": None, "z": z, "t0": 4.0}
            Bands, _, _ = bandflux_classes()
            m = build(p) if model == "sed" else Bands(2.0)
            state = m.sample_parameters()
            ts = np.array([5.0, 1.0, 2.0])
            short = TABLES[name][1]

            def want(f):
                if model == "sed":
                    return [ref_sed(pbs, p, z is not None, None, [], t, name) for t in ts]
                return [bflux(2.0, t, f) for t in ts]

            for pb, pb_what in ((pbs[name], "passband"), (pb_group([name]), "group of one")):
                for f in (name, short):
                    ctx.eq(m.evaluate_bandfluxes(pb, ts, [f] * 3, state), want(f), f"{pb_what}, filters {f}")
            ctx.eq(m.evaluate_bandfluxes(pbs[name], ts, None, state), want(short), "passband without filters")
            ctx.eq(m.evaluate_bandfluxes(pbs[name], ts, None, None), want(short), "passband without filters or state")
            group = pb_group()
            ctx.eq(m.evaluate_bandfluxes(group, ts, [name] * 3, state), want(name), "group of four")
            ctx.step(7)
            ctx.raises(ValueError, lambda: m.evaluate_bandfluxes(group, ts, None, state), "group without filters")
            for k in (0, 1, 2, 4):
                ctx.raises(ValueError, lambda k=k: m.evaluate_bandfluxes(group, ts, [name] * k, state), f"{k} filters for 3 times")
            if model == "sed":
                ctx.raises((KeyError, ValueError), lambda: m.evaluate_bandfluxes(group, ts, [name, "nope", name], state), "unknown filter")
                ctx.raises((KeyError, ValueError), lambda: m.evaluate_bandfluxes(group, ts, ["g"] * 3, state), "ambiguous filter")
            ctx.state((name, model, z))
            ctx.outcome(f"{model} forms")

        ctx.case([name, model, z], go)


def sec_flat(ctx):
    """A flat spectrum has the same band flux in every filter; redshift multiplies it by 1 + z."""
    from lightcurvelynx.models.basic_models import ConstantSEDModel

    for z, b, names in itertools.product((None, 0.0, 0.5, 3.0), (0.0, 7.0, 1e5), [c for r in (1, 2, 3, 4) for c in itertools.combinations(TABLES, r)]):

        def go(z=z, b=b, names=names):
            kw = {} if z is None else {"redshift": z, "t0": 0.0}
            m = ConstantSEDModel(brightness=b, **kw)
            got = m.evaluate_bandfluxes(pb_group(names), np.arange(len(names), dtype=float), list(names), m.sample_parameters())
            ctx.eq(got, np.full(len(names), b * (1 + (z or 0.0))), f"flat {b} at z={z} through {names}")
            ctx.step()
            ctx.state((z, b, names))
            ctx.outcome("flat")

        ctx.case([z, b, list(names)], go)


class Hist:
    pass


class History(Machine):
    """Evaluations, new effects and reprocessed passbands, on a SED and a bandflux model that share a group."""

    P = {"amp": 2.0, "lo": None, "hi": 2500.0, "z": 0.5, "t0": 4.0}
    OBS = [(5.0, "S_g"), (1.0, "z"), (5.0, "T_g"), (0.0, "r")]

    def start(self, ctx):
        st = Hist()
        st.sed = build(self.P, ("last", 0))
        Bands, _, _ = bandflux_classes()
        st.band = Bands(2.0, node_label="b")
        st.group = pb_group()
        st.ref = {"sed": [], "band": [], "step": 50.0}
        return st

    def ops(self, st):
        out = [["sed", e] for e in ("rmul", "oadd") if e not in st.ref["sed"]]
        out += [["band", e] for e in ("badd", "bmul") if e not in st.ref["band"]]
        out += [["step", d] for d in (50.0, 20.0, 75.0) if d != st.ref["step"]]
        out += [["eval", "r"], ["eval", "S_g"]]
        return out

    def step(self, ctx, st, op):
        if op[0] == "sed":
            st.ref["sed"].append(op[1])
            st.sed.add_effect(make_effect(op[1]))
        elif op[0] == "band":
            st.ref["band"].append(op[1])
            st.band.add_effect(make_beffect(op[1]))
        elif op[0] == "step":
            st.ref["step"] = op[1]
            st.group.process_transmission_tables(delta_wave=op[1], trim_quantile=None)
        else:
            for m in (st.sed, st.band):
                m.evaluate_bandfluxes(st.group, np.array([9.0]), [op[1]], None)

    def observe(self, ctx, st):
        from lightcurvelynx.astro_utils.passbands import Passband

        pbs = {}
        for n, (s, f, t) in TABLES.items():
            pbs[n] = Passband(np.array(t), s, f, delta_wave=st.ref["step"], trim_quantile=None)
        ts, fs = np.array([o[0] for o in self.OBS]), [o[1] for o in self.OBS]
        want = [ref_sed(pbs, self.P, True, ("last", 0), [(e, EFFECTS[e][2]) for e in st.ref["sed"]], t, f) for t, f in self.OBS]
        ctx.eq(st.sed.evaluate_bandfluxes(st.group, ts, fs, st.sed.sample_parameters()), want, "SED model after the history")
        want = [ref_band(2.0, [(e, BEFF[e][1]) for e in st.ref["band"]], t, f) for t, f in self.OBS]
        ctx.eq(st.band.evaluate_bandfluxes(st.group, ts, fs, st.band.sample_parameters()), want, "bandflux model after the history")

    def canon(self, st):
        return [st.ref, [pb.waves for pb in st.group]]


def sec_history(ctx):
    bfs(ctx, "history", History(), ctx.pick(4, 5))


SECTIONS = [
    ("sed", sec_sed, (4, 8)),
    ("bandflux", sec_bandflux, (2, 4)),
    ("forms", sec_forms),
    ("flat", sec_flat),
    ("history", sec_history, (4, 8)),
    ("memory", memory.sec_models(memory.band_models), 2),
]
