"""P02: a passband group finds, aligns and integrates each of its passbands as that passband alone would."""

import itertools
import os
import shutil

import numpy as np

from mc.core import Machine, bfs, same

ID = "P02"
RULE = (
    "every ordered selection of up to four passbands from a pool with shared filter names, shifted, nearly equal, nested "
    "and non-uniform wavelength grids, times every way of building the group and every filter selection; breadth-first "
    "search over histories of adding, replacing and reprocessing; a state is the group's content"
)
ASSUMPTIONS = ["wavelengths closer than 1e-5 Angstrom are the same wavelength (documented threshold)"]

# name -> (survey, filter, table, kwargs)
POOL = {
    "A_g": ("A", "g", [[400.0, 0.2], [410.0, 0.8], [420.0, 0.5]], {"delta_wave": 5.0, "trim_quantile": None}),
    "A_r": ("A", "r", [[410.0, 0.1], [425.0, 1.0], [440.0, 0.3]], {"delta_wave": 5.0, "trim_quantile": None}),
    "B_r": ("B", "r", [[412.0, 0.4], [422.0, 0.9], [432.0, 0.2]], {"delta_wave": 5.0, "trim_quantile": None}),
    "B_i": ("B", "i", [[405.0, 0.4], [406.5, 0.9], [431.0, 0.2]], {"delta_wave": None, "trim_quantile": None}),
    "C_u": ("C", "u", [[400.0000001, 0.3], [410.0000001, 0.8], [420.0000001, 0.1]], {"delta_wave": 5.0, "trim_quantile": None}),
    "C_z": ("C", "z", [[500.0, 0.3], [520.0, 0.8]], {"delta_wave": 5.0, "trim_quantile": None}),
    "D_g": ("D", "g", [[409.9999999, 0.3], [419.9999999, 0.8]], {"delta_wave": 5.0, "trim_quantile": None}),
}


def quiet():
    import logging

    logging.disable(logging.CRITICAL)


def band(name):
    from lightcurvelynx.astro_utils.passbands import Passband

    survey, filt, table, kw = POOL[name]
    return Passband(np.array(table), survey, filt, **kw)


def sed(w):
    """Three spectra (smooth, so that 1e-5 Angstrom do not matter)."""
    w = np.asarray(w)
    return np.vstack([0.01 * w, (w / 100.0 - 4.0) ** 2 + 1.0, np.exp(-(((w - 415.0) / 9.0) ** 2))])


def check_group(ctx, group, names, what, bands=None):
    """names: full names expected in the group, in order; bands: name -> expected stand-alone passband."""
    bands = bands or {n: band(n) for n in names}
    ctx.eq(len(group), len(names), f"{what}: length")
    ctx.eq(sorted(group.passbands), sorted(names), f"{what}: names")
    ctx.eq(sorted(pb.full_name for pb in group), sorted(names), f"{what}: iteration")
    by_filter = {}
    for n in names:
        by_filter.setdefault(bands[n].filter_name, []).append(n)
    ctx.eq(sorted(group.filters), sorted(by_filter), f"{what}: filters")
    waves = np.asarray(group.waves)
    ctx.check(bool(np.all(np.diff(waves) > 1e-6)), f"{what}: group wavelengths {waves} do not increase")
    every = np.concatenate([bands[n].waves for n in names])
    near = np.min(np.abs(waves[:, None] - every[None, :]), axis=0)
    ctx.check(bool(np.all(near < 1e-5)), f"{what}: band wavelengths missing from the group's")
    far = np.min(np.abs(waves[:, None] - every[None, :]), axis=1)
    ctx.check(bool(np.all(far < 1e-5)), f"{what}: group wavelengths that no band has")
    lo, hi = group.wave_bounds()
    ctx.eq([lo, hi], [every.min(), every.max()], f"{what}: wavelength bounds", 1e-9, 1e-5)
    flux = sed(waves)
    status, both = ctx.attempt(lambda: group.fluxes_to_bandfluxes(flux))
    ctx.check(np.array_equal(flux, sed(group.waves)), lambda: f"{what}: the caller's fluxes were changed")
    if not ctx.check(status == "ok", lambda: f"{what}: fluxes_to_bandfluxes: {type(both).__name__}: {both}"):
        return
    ctx.eq(sorted(both), sorted(names), f"{what}: bandflux names")
    for n in names:
        alone = bands[n].fluxes_to_bandflux(sed(bands[n].waves))
        ctx.eq(both[n], alone, f"{what}: bandfluxes of {n}", 1e-5, 1e-9)
        ctx.eq(group.fluxes_to_bandflux(flux, n), alone, f"{what}: bandflux of {n}", 1e-5, 1e-9)
        ctx.check(n in group, f"{what}: {n} in group")
        ctx.check(group[n].full_name == n and group[n] == bands[n], f"{what}: group[{n}] is another passband")
        f = bands[n].filter_name
        ctx.check(f in group, f"{what}: {f} in group")
        if len(by_filter[f]) == 1:
            ctx.check(group[f].full_name == n, f"{what}: group[{f}] is {group[f].full_name}")
            ctx.eq(group.fluxes_to_bandflux(flux, f), alone, f"{what}: bandflux of {f}", 1e-5, 1e-9)
        else:
            ctx.raises((KeyError, ValueError), lambda f=f: group[f], f"{what}: ambiguous group[{f}]")
            ctx.raises((KeyError, ValueError), lambda f=f: group.fluxes_to_bandflux(flux, f), f"{what}: ambiguous bandflux of {f}")
            ctx.outcome("ambiguous")
    for other in ("A_x", "q", "A", *(n for n in POOL if n not in names)):
        ctx.check(other not in group, f"{what}: {other} in group")
        ctx.raises((KeyError, ValueError), lambda other=other: group[other], f"{what}: unknown group[{other}]")
        ctx.raises((KeyError, ValueError), lambda other=other: group.fluxes_to_bandflux(flux, other), f"{what}: unknown bandflux {other}")
    ask = ["g", "r", "i", "u", "z", "q", *POOL, "A_x", "g"]
    ctx.eq(np.asarray(group.mask_by_filter(ask)).tolist(), [a in names or a in by_filter for a in ask], f"{what}: mask_by_filter")
    for bad in (flux[:, :-1], np.hstack([flux, flux[:, :1]]), np.zeros((0, len(waves)))):
        ctx.raises(ValueError, lambda bad=bad: group.fluxes_to_bandfluxes(bad), f"{what}: flux matrix of shape {bad.shape}")


def model_group(ctx, group, names, what):
    """A model evaluated through the group: each observation with its own filter's passband."""
    from lightcurvelynx.models.basic_models import ConstantSEDModel

    m = ConstantSEDModel(brightness=7.0)
    st = m.sample_parameters()
    ask = np.array([n for n in names for _ in range(2)][::-1])
    times = np.arange(len(ask), dtype=float)
    ctx.eq(m.evaluate_bandfluxes(group, times, ask, st), np.full(len(ask), 7.0), f"{what}: flat model", 1e-9)


def _select(ctx, names):
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    quiet()
    what = "+".join(names)
    built = PassbandGroup([band(n) for n in names])
    check_group(ctx, built, names, what)
    model_group(ctx, built, names, what)
    ctx.state(tuple(names))
    # A group of one may be given bare.
    if len(names) == 1:
        check_group(ctx, PassbandGroup(band(names[0])), names, what + " bare")
    # Filters given as short and full names, in every combination.
    if len(names) <= 3:
        keys = sorted({POOL[n][1] for n in names} | set(names)) + ["nope"]
        for k in range(1, 3):
            for filters in itertools.combinations(keys, k):
                keep = [n for n in names if n in filters or POOL[n][1] in filters]
                mk = lambda filters=filters: PassbandGroup([band(n) for n in names], filters=list(filters))  # noqa: E731
                if "nope" in filters:
                    ctx.raises(ValueError, mk, f"{what}: filters {filters}")
                    ctx.outcome("missing filter")
                else:
                    check_group(ctx, mk(), keep, f"{what}: filters {filters}")
                    ctx.outcome("subset")


def sec_select(ctx):
    names = list(POOL)
    for k in range(1, ctx.pick(4, 5)):
        for sel in itertools.permutations(names, k):
            if k == 3 and ctx.tier == "quick" and list(sel) != sorted(sel) and list(sel) != sorted(sel, reverse=True):
                continue
            ctx.case({"sel": sel}, _select, ctx, list(sel))


def _build(ctx, names, how, filters):
    """The same group built from dictionaries (files) and from a directory."""
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    quiet()
    root = os.path.join(os.environ["VERIF_SCRATCH"], f"p02_{os.getpid()}")
    what = f"{how} {names} filters={filters}"
    os.makedirs(root)
    try:
        params = []
        for n in names:
            survey, filt, table, kw = POOL[n]
            d = os.path.join(root, survey)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{filt}.dat")
            with open(path, "w") as f:
                f.write("".join(f"{w!r} {t!r}\n" for w, t in table))
            params.append({"survey": survey, "filter_name": filt, "table_path": path, **kw})
        keep = [n for n in names if filters is None or n in filters or POOL[n][1] in filters]
        found = set(keep) | {POOL[n][1] for n in keep}
        missing = filters is not None and not set(filters) <= found
        if how == "dicts":
            before = [dict(p) for p in params]
            mk = lambda: PassbandGroup(params, filters=filters)  # noqa: E731
        elif how == "defaults":
            # Keyword arguments apply to the dictionaries that do not have them.
            for p in params:
                if p["delta_wave"] == 5.0:
                    del p["delta_wave"]
                del p["trim_quantile"]
            before = [dict(p) for p in params]
            mk = lambda: PassbandGroup(params, filters=filters, delta_wave=5.0, trim_quantile=None)  # noqa: E731
        elif how == "single":
            before = [dict(p) for p in params]
            mk = lambda: PassbandGroup(params[0], filters=filters)  # noqa: E731
        else:
            before = params
            os.makedirs(os.path.join(root, POOL[names[0]][0], "old"))  # not a file
            if filters is not None:  # ... and one that is not asked for
                with open(os.path.join(root, POOL[names[0]][0], "notes.dat"), "w") as f:
                    f.write("not a transmission curve\n")
            mk = lambda: PassbandGroup.from_dir(  # noqa: E731
                os.path.join(root, POOL[names[0]][0]), filters=filters, delta_wave=POOL[names[0]][3]["delta_wave"], trim_quantile=None
            )
        if missing:
            ctx.raises(ValueError, mk, what)
            ctx.outcome("missing filter")
        else:
            check_group(ctx, mk(), keep, what)
            ctx.outcome(how)
        ctx.check(same(params, before), f"{what}: the caller's parameters were changed")
    finally:
        shutil.rmtree(root)
    ctx.state((how, tuple(names), filters and tuple(filters)))


def sec_build(ctx):
    for k in (1, 2, 3):
        for sel in itertools.combinations(POOL, k):
            for how in ("dicts", "defaults", "single", "dir"):
                if how == "single" and k != 1 or how == "dir" and len({POOL[n][0] for n in sel}) != 1:
                    continue
                if how == "dir" and len({POOL[n][3]["delta_wave"] for n in sel}) != 1:
                    continue
                names = list(sel)
                for filters in (None, [POOL[names[0]][1]], [names[-1]], ["nope"]):
                    if how == "dir" and filters is not None and filters[0] in POOL:
                        continue  # the directory is filtered by filter name
                    ctx.case({"how": how, "sel": sel, "f": filters}, _build, ctx, names, how, filters)


# ---------------------------------------------------------------------- histories
class Group(Machine):
    def start(self, ctx):
        from lightcurvelynx.astro_utils.passbands import PassbandGroup

        quiet()
        return {"g": PassbandGroup([band("A_g"), band("B_i")]), "names": ["A_g", "B_i"], "set": {}, "alt": set()}

    def ops(self, st):
        out = [["add", n] for n in POOL]
        out += [["process", d, t] for d, t in ((5.0, None), (5.0, 0.1), (2.5, 1e-3), (None, None), (4.0, 0.1))]
        out += [["replace", "A_g"], ["replace", "B_i"]]
        return out

    def expected(self, st):
        from lightcurvelynx.astro_utils.passbands import Passband

        out = {}
        for n in st["names"]:
            survey, filt, table, kw = POOL[n]
            table = np.array(table)
            if n in st["alt"]:
                table = table + np.array([100.0, 0.0])
            kw = st["set"].get(n, kw)
            out[n] = Passband(table, survey, filt, **kw)
        return out

    def step(self, ctx, st, op):
        from lightcurvelynx.astro_utils.passbands import Passband

        if op[0] == "add":
            st["g"].add_passband(band(op[1]))
            if op[1] not in st["names"]:
                st["names"].append(op[1])
            st["set"].pop(op[1], None)
            st["alt"].discard(op[1])
        elif op[0] == "replace":
            survey, filt, table, kw = POOL[op[1]]
            st["g"].add_passband(Passband(np.array(table) + np.array([100.0, 0.0]), survey, filt, **kw))
            st["set"].pop(op[1], None)
            st["alt"].add(op[1])
        else:
            st["g"].process_transmission_tables(delta_wave=op[1], trim_quantile=op[2])
            for n in st["names"]:
                st["set"][n] = {"delta_wave": op[1], "trim_quantile": op[2]}

    def observe(self, ctx, st):
        check_group(ctx, st["g"], st["names"], f"{st['names']} {st['set']}", self.expected(st))

    def canon(self, st):
        return (sorted(st["names"]), st["set"], st["alt"], [p.processed_transmission_table for p in st["g"]])


def sec_histories(ctx):
    bfs(ctx, "group", Group(), ctx.pick(3, 4))


def sec_presets(ctx):
    """The ZTF preset, from bands registered with sncosmo, with every selection of filters."""
    import sncosmo

    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    quiet()
    tables = {"g": [[400.0, 0.2], [410.0, 0.8], [420.0, 0.5]], "r": [[415.0, 0.1], [425.0, 1.0], [440.0, 0.3]], "i": [[436.0, 0.4], [444.0, 0.9], [460.0, 0.2]]}

    def go(names, preset):
        ctx.step()
        for f, t in tables.items():
            w, v = np.array(t).T
            sncosmo.register(sncosmo.Bandpass(w, v, name=f"ztf{f}"), force=True)
        what = f"ZTF preset {names}"
        mk = lambda: PassbandGroup.from_preset(preset, filters=None if names is None else list(names))  # noqa: E731
        short = [n.split("_")[-1] for n in names or "gri"]
        if names is not None and not set(names) <= {*"gri", "ZTF_g", "ZTF_r", "ZTF_i"}:
            ctx.raises(ValueError, mk, what)
            ctx.outcome("missing filter")
        else:
            bands = {f"ZTF_{f}": Passband(np.array(tables[f]), "ZTF", f, trim_quantile=None) for f in "gri" if f in short}
            check_group(ctx, mk(), list(bands), what, bands)
            ctx.outcome("preset")
        ctx.state((names, preset))

    for preset in ("ztf", "ZTF", "Ztf"):
        for names in [None, *(n for k in (1, 2, 3) for n in itertools.permutations(["g", "r", "i", "ZTF_r", "u"], k))]:
            ctx.case({"preset": preset, "names": names}, go, names, preset)


def sec_refuse(ctx):
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    quiet()
    for name, given, exc in (("empty", [], ValueError), ("none", None, ValueError), ("text", ["A_g"], TypeError), ("table", [np.zeros((3, 2))], TypeError)):
        ctx.case(
            {"bad": name},
            lambda given=given, exc=exc, name=name: (ctx.raises(exc, lambda: PassbandGroup(given), name), ctx.state(name), ctx.outcome("refused")),
        )
    ctx.case(
        {"bad": "dir"},
        lambda: ctx.raises(ValueError, lambda: PassbandGroup.from_dir("/nonexistent/survey"), "missing directory"),
    )
    for units in ("A", "m", None):
        ctx.case(
            {"bad": "LSST units", "units": units},
            lambda units=units: ctx.raises(ValueError, lambda: PassbandGroup.from_preset("LSST", units=units, table_dir="/nonexistent"), f"LSST in {units}"),
        )
    ctx.case({"bad": "preset"}, lambda: ctx.raises(ValueError, lambda: PassbandGroup.from_preset("nope"), "unknown preset"))


SECTIONS = [("select", sec_select, 8), ("build", sec_build, 4), ("histories", sec_histories, 8), ("presets", sec_presets), ("refuse", sec_refuse)]
