"""Runs of the code in fresh processes, one for every order in which Python may iterate over a small set of names.

Python salts the hashes of strings anew in every process, so the order of a set of names differs from process to
process.  `orders` finds a hash seed for every possible order; a driver run under each of them must print the same.
"""

import itertools
import json
import math
import os
import subprocess
import sys


def orders(names):
    """A hash seed for every order in which a set of the names may be iterated over (all len(names)! of them)."""
    found, seed = {}, 0
    while len(found) < math.factorial(len(names)):
        env = {**os.environ, "PYTHONHASHSEED": str(seed)}
        out = subprocess.run([sys.executable, "-S", "-c", f"print(*{{*{list(names)!r}}})"], env=env, capture_output=True, text=True, check=True).stdout
        found.setdefault(tuple(out.split()), seed)
        seed += 1
    assert set(found) == set(itertools.permutations(names))
    return found


def run(driver, seed):
    """What the driver prints in a fresh process with the given hash seed: {scenario: digest}."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = {**os.environ, "PYTHONHASHSEED": str(seed)}
    p = subprocess.run([sys.executable, "-m", "mc.procs", driver], env=env, cwd=root, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(f"{driver} under PYTHONHASHSEED={seed}: {p.stderr.strip().splitlines()[-1:]}")
    return json.loads(p.stdout.strip().splitlines()[-1])


def digest(value):
    """The value in plain lists, dictionaries, strings and numbers."""
    import numpy as np

    if isinstance(value, dict):
        return {str(k): digest(v) for k, v in value.items()}
    if isinstance(value, np.ndarray):
        return digest(value.tolist())
    if isinstance(value, (list, tuple)):
        return [digest(v) for v in value]
    if isinstance(value, np.generic):
        return digest(value.item())
    return value if value is None or isinstance(value, (str, int, float, bool)) else repr(value)


def check(ctx, driver, names, what):
    """Every order of the names, each in its own process, against the first."""

    from mc.core import same

    def go():
        base = None
        for order, seed in orders(names).items():
            ctx.step()
            got = run(driver, seed)
            base = base or got
            ctx.state((driver, order))
            for k in base:
                ctx.check(same(got.get(k), base[k], 1e-9, 1e-12), f"{what}: {k} differs between processes (set order {order}, PYTHONHASHSEED={seed})")
            ctx.check(len(got) == len(base) > 0, f"{what}: scenarios {sorted(got)}")
            ctx.outcome("process")

    ctx.case({"processes": driver}, go)


def drive_s02():
    import numpy as np

    from mc.props import s02

    out = {}
    for kind in (*s02.KINDS, "templates"):
        if kind == "templates":
            model = templates()
        else:
            model = s02.make(kind)
        from lightcurvelynx.simulate import compute_noise_free_lightcurves, simulate_lightcurves
        from mc.props.s01 import group, survey

        if kind == "templates":
            out[kind] = digest(s02.flat(simulate_lightcurves(model, 4, survey(0), group(0), rng=np.random.default_rng(7))))
            st = model.sample_parameters(num_samples=3, rng_info=np.random.default_rng(4))
            out["template SEDs"] = digest(np.array([model.compute_sed(np.array([0.5, 1.5]), group(0).waves, s) for s in st]))
        else:
            out[kind] = digest(s02.simulate(model, 4, np.random.default_rng(7)))
            st = s02.make(kind).sample_parameters(num_samples=2, rng_info=np.random.default_rng(3))
        if kind in ("constant", "step"):
            free = compute_noise_free_lightcurves(model, st, group(0), rest_frame_phase_min=0.0, rest_frame_phase_max=4.0)
            out[f"{kind} noise-free"] = digest([[list(r["lightcurve"][c]) for c in sorted(r["lightcurve"].columns)] for _, r in free.iterrows()])
    return out


def templates():
    import numpy as np

    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.effects.white_noise import WhiteNoise
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel
    from mc.props.s01 import group

    t = np.array([-200.0, 0.0, 200.0])
    curves = [LightcurveData({f: np.stack([t, v * np.array([1.0, 3.0, 2.0])], axis=1) for f, v in zip(("infra", "r", "g"), (1.0, k, 5.0))}, 0.0, baseline={"infra": 0.1 * k, "r": 0.2, "g": 0.3}) for k in (2.0, 3.0)]
    m = MultiLightcurveTemplateModel(curves, group(0), t0=95.0, ra=NumpyRandomFunc("uniform", low=9.99, high=10.01), dec=-5.0, node_label="obj")
    m.add_effect(WhiteNoise(white_noise_sigma=1.0))
    return m


def drive_g05():
    import numpy as np

    from mc.props import g05

    out = {}
    for kind, (make, _) in g05.kinds().items():
        node = make(5)
        out[kind] = digest([g05.draw(node, n) for n in (3, 1, 2)])
        out[f"{kind} given"] = digest(g05.draw(node, 3, np.random.default_rng(12)))
    # every parameter of every node, under its name
    out["whole state of light-curve templates"] = digest(templates().sample_parameters(num_samples=3, rng_info=np.random.default_rng(4)).to_dict())
    return out


if __name__ == "__main__":
    print(json.dumps({"s02": drive_s02, "g05": drive_g05}[sys.argv[1]]()))
