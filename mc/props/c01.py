"""C01: downloaded data files are whole, current when forced, and never lost."""

import http.server
import itertools
import os
import shutil
import sys
import threading
from pathlib import Path

import numpy as np

from ..core import Machine, bfs

ID = "C01"
RULE = (
    "breadth-first search over histories of requesting a data file (forced or not, by path or string, with and without a URL), editing "
    "or deleting it, with every answer of a local HTTP server (two versions, not found, cut short at several points, dropped, "
    "no server), on the real downloader; a process killed before every file system event of a download; every download entry "
    "point over every state of its cache; a state is the cache's contents"
)
ASSUMPTIONS = [
    "pooch and requests are the installed ones, talking to a server on the loopback interface; for the entry points with fixed "
    "https addresses a stand-in records the address and behaves as pooch does (keeping an existing file when no hash is known)",
]

BODY = {"A": b"100 0.5\n110 0.75\n120 0.5\n", "B": b"200 0.25\n205 1.0\n210 0.5\n215 0.0\n" * 400}


def scratch(name):
    d = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / f"c01_{name}_{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    return d


class Server:
    def __init__(self):
        self.mode, self.hits = "A", []
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                outer.hits.append(self.path)
                m = outer.mode
                if m == "404":
                    self.send_error(404)
                    return
                body = BODY[m[-1]]
                if m.startswith("drop"):
                    self.connection.close()
                    return
                self.send_response(200)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                if m.startswith("cut0"):
                    body = b""
                elif m.startswith("cut1"):
                    body = body[: len(body) // 2]
                elif m.startswith("cut2"):
                    body = body[:-1]
                self.wfile.write(body)

            def log_message(self, *args):
                pass

            def handle(self):
                try:
                    super().handle()
                except (OSError, ValueError):
                    pass

        class Quiet(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *args):
                pass

        self.srv = Quiet(("127.0.0.1", 0), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, args=(0.02,), daemon=True).start()

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


def local_only():
    for k in list(os.environ):
        if k.lower() in ("http_proxy", "https_proxy", "all_proxy"):
            del os.environ[k]
    os.environ["NO_PROXY"] = "127.0.0.1"


MODES = ["A", "B", "404", "cut0B", "cut1B", "cut2B", "dropA", "closed"]


class Cache(Machine):
    """One data file. st: contents (None if absent); the file system is rebuilt for each step."""

    def __init__(self, server, closed_port, dest):
        self.server, self.closed, self.dest = server, closed_port, dest
        self.dir = scratch("cache")

    def start(self, ctx):
        return {"file": None, "n": 0}

    def ops(self, st):
        out = [["get", force, mode, how] for force in (False, True) for mode in MODES for how in ("path", "str")]
        out += [["get", force, "A", how] for force in (False, True) for how in ("none", "empty")]
        if st["file"] is not None:
            out += [["delete"], ["edit", "mine"], ["edit", ""]]
        return out

    def clone(self, st):
        return dict(st)

    def path(self):
        return self.dir / self.dest

    def lay(self, st):
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir.mkdir()
        if st["file"] is not None:
            self.path().parent.mkdir(parents=True, exist_ok=True)
            self.path().write_bytes(st["file"])

    def step(self, ctx, st, op):
        from lightcurvelynx.utils.data_download import download_data_file_if_needed as get

        if op[0] == "delete":
            st["file"] = None
            return
        if op[0] == "edit":
            st["file"] = op[1].encode()
            return
        self.lay(st)
        _, force, mode, how = op
        self.server.mode, self.server.hits = mode, []
        url = f"http://127.0.0.1:{self.closed if mode == 'closed' else self.server.port}/data/{mode}"
        url = {"none": None, "empty": ""}.get(how, url)
        needed = force or st["file"] is None
        arg = str(self.path()) if how == "str" else self.path()
        err, ret = None, None
        try:
            ret = get(arg, url, force_download=force) if force or how == "str" else get(arg, url)
        except Exception as e:
            err = e
        old = st["file"]
        if not needed:
            ctx.check(err is None and ret is True, f"existing file: {ret!r} {err!r}")
            ctx.eq(self.server.hits, [], "requests for an existing file")
            ctx.outcome("kept")
        elif not url:
            ctx.check(isinstance(err, ValueError), f"no URL: {ret!r} {err!r}")
            ctx.outcome("no url")
        elif mode in BODY:
            ctx.check(err is None and ret is True, f"download: {ret!r} {err!r}")
            ctx.eq(self.server.hits, [f"/data/{mode}"], "requests")
            st["file"] = BODY[mode]
            ctx.outcome("downloaded")
        else:
            ctx.check(err is not None or ret is False, f"failed download ({mode}): {ret!r}")
            ctx.outcome("failed")
        have = self.path().read_bytes() if self.path().exists() else None
        label = {None: None, BODY["A"]: "A", BODY["B"]: "B"}
        ctx.check(have == st["file"], f"contents {label.get(have, have)} after {op} of {label.get(old, old)}, expected {label.get(st['file'], st['file'])}")
        left = sorted(str(p.relative_to(self.dir)) for p in self.dir.rglob("*") if p.is_file())
        ctx.eq(left, [] if st["file"] is None else [self.dest], f"files after {op}")

    def canon(self, st):
        return st["file"]


def sec_histories(ctx):
    import logging
    import socket

    logging.getLogger("pooch").setLevel(logging.CRITICAL)
    logging.getLogger("lightcurvelynx").setLevel(logging.CRITICAL)
    local_only()
    server = Server()
    s = socket.socket()
    s.bind(("127.0.0.1", 0))  # bound but not listening: connections are refused
    for dest in ("data.dat", "a/b/Data.DB", "file.with.dots", "No Ending"):
        bfs(ctx, dest, Cache(server, s.getsockname()[1], dest), ctx.pick(3, 5))
    s.close()
    server.close()


# ---------------------------------------------------------------------- killed processes
def sec_crash(ctx):
    import logging

    logging.getLogger("pooch").setLevel(logging.CRITICAL)
    local_only()
    server = Server()
    d = scratch("crash")
    path = d / "sub" / "data.dat"

    def child(stop):
        """Forked: count file system events below d and end the process before the given one."""
        from lightcurvelynx.utils.data_download import download_data_file_if_needed as get

        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            seen = [0]

            def hook(event, args):
                if event in ("os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "open", "os.chmod"):
                    if not any(str(d) in str(a) for a in args[:2]):
                        return
                    if event == "open" and not (isinstance(args[1], str) and set(args[1]) & set("wax+") or (args[2] or 0) & (os.O_WRONLY | os.O_RDWR)):
                        return
                    if seen[0] == stop:
                        os._exit(9)
                    seen[0] += 1

            try:
                sys.addaudithook(hook)
                ok = get(path, f"http://127.0.0.1:{server.port}/x", force_download=True)
                os.write(w, f"{int(ok)} {seen[0]}".encode())
            finally:
                os._exit(0)
        os.close(w)
        out = os.read(r, 100).decode()
        os.close(r)
        os.waitpid(pid, 0)
        return [int(v) for v in out.split()] if out else None

    def lay(old):
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        if old:
            path.parent.mkdir()
            path.write_bytes(BODY[old])

    def go(old, new, stop):
        from lightcurvelynx.utils.data_download import download_data_file_if_needed as get

        ctx.step()
        lay(old)
        server.mode = new
        res = child(stop)
        have = path.read_bytes() if path.exists() else None
        legal = [BODY[new]] + [BODY[old] if old else None] + [None]
        ctx.check(have in legal, f"killed before event {stop}: the file holds {None if have is None else len(have)} bytes of neither version")
        if res is not None:
            ctx.eq(have, BODY[new], "file after an undisturbed download")
        ctx.state((old, new, stop, have is None))
        # the next user gets a whole file
        for mode in ("A", "B"):
            server.mode = mode
            ctx.eq(get(path, f"http://127.0.0.1:{server.port}/x"), True, "next request")
            want = have if have is not None else BODY[mode]
            have = path.read_bytes()
            ctx.check(have == want, "contents after the next request")
        server.mode = "A"
        ctx.eq(get(path, f"http://127.0.0.1:{server.port}/x", force_download=True), True, "next forced request")
        ctx.eq(path.read_bytes(), BODY["A"], "contents after the next forced request")
        ctx.outcome("killed" if res is None else "complete")
        return res

    lay(None)
    for old in (None, "A", "B"):
        for new in ("A", "B"):
            lay(old)
            server.mode = new
            total = child(10**9)
            n = total[1] if total else 30
            for stop in range(n + 1):
                ctx.case([old, new, stop], go, old, new, stop)
    server.close()


# ---------------------------------------------------------------------- entry points
class FakePooch:
    def __init__(self, contents):
        self.contents, self.calls = contents, []

    def retrieve(self, url, known_hash, fname=None, path=None, processor=None, downloader=None, progressbar=False):
        full = Path(path) / fname
        self.calls.append((url, str(full)))
        if not (full.exists() and known_hash is None):
            full.parent.mkdir(parents=True, exist_ok=True)
            body = self.contents(url)
            if body is None:
                raise OSError("unreachable")
            full.write_bytes(body)
        return str(full)


def table(k, nm=False):
    ws = [400.0 + 10 * k + 5 * i for i in range(8)] if nm else [4000.0 + 100 * k + 50 * i for i in range(8)]
    return "".join(f"{w} {[0, 1, 2, 4, 3, 2, 1, 0][i] / 4}\n" for i, w in enumerate(ws)).encode()


VOT = """<?xml version="1.0"?><VOTABLE version="1.1" xmlns="http://www.ivoa.net/xml/VOTable/v1.1"><RESOURCE type="results"><TABLE>
<FIELD name="Wavelength" unit="{unit}" datatype="float"/><FIELD name="Transmission" datatype="float"/><DATA><TABLEDATA>
{rows}</TABLEDATA></DATA></TABLE></RESOURCE></VOTABLE>"""


def votable(k):
    ws = [4000.0 + 100 * k + 50 * i for i in range(8)]
    return VOT.format(unit="Angstrom", rows="".join(f"<TR><TD>{w}</TD><TD>{[0, 1, 2, 4, 3, 2, 1, 0][i] / 4}</TD></TR>\n" for i, w in enumerate(ws))).encode()


ROMAN_F = ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]


def roman(k):
    head = "# comment\nWave " + " ".join(ROMAN_F + ["SNPrism"]) + "\n"
    return (head + "".join(f"{0.4 + 0.05 * i} " + " ".join(str(((i * (j + 2 + k)) % 7 + 1) * 0.25) for j in range(9)) + "\n" for i in range(8))).encode()


def sec_entries(ctx):
    import unittest.mock as mock

    import lightcurvelynx.utils.data_download as dd
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    def run(contents, fn):
        fake = FakePooch(contents)
        with mock.patch.object(dd.pooch, "retrieve", fake.retrieve):
            return fn(), fake.calls

    def peak(pb):
        # without trimming and resampling, a band is its table times 1 / wavelength, normalized
        t = pb.processed_transmission_table
        s = t[:, 1] * t[:, 0]
        return [round(float(v), 6) for v in t[:, 0]], [round(float(v), 9) for v in s / s.max()]

    def lsst(cached, force, filters):
        ctx.step()
        d = scratch("lsst")
        bands = "ugrizy"
        (d / "LSST").mkdir()
        for c in cached:
            (d / "LSST" / f"{c}.dat").write_bytes(table(bands.index(c) + 10, nm=True))
        served = lambda url: table(bands.index(url.split("total_")[1][0]), nm=True)  # noqa: E731
        kw = {} if force is None else {"force_download": force}
        pbg, calls = run(served, lambda: PassbandGroup.from_preset("LSST", table_dir=d, filters=filters, trim_quantile=None, delta_wave=None, **kw))
        ctx.eq(sorted(pbg.filters), sorted(filters or bands), "filters")
        for c in filters or bands:
            k = bands.index(c) + (10 if c in cached and not force else 0)
            ctx.eq(peak(pbg[c]), ([4000.0 + 100 * k + 50 * i for i in range(8)], [0, 0.25, 0.5, 1.0, 0.75, 0.5, 0.25, 0]), f"table of {c} (cached {cached}, force {force})")
        for url, full in calls:
            c = url.split("total_")[1][0]
            ctx.check(full == str(d / "LSST" / f"{c}.dat") and url.startswith("https://github.com/lsst/throughputs"), f"{url} saved as {full}")
            ctx.check(force or c not in cached, f"{c} downloaded although cached")
        ctx.state(("lsst", cached, force, filters))
        ctx.outcome("lsst")

    subsets = ["".join(c) for r in (0, 1, 2, 5, 6) for c in itertools.combinations("ugrizy", r)]
    for cached in subsets:
        for force in (None, False, True):
            for filters in (None, ["r", "y"]):
                ctx.case(["lsst", cached, force, filters], lsst, cached, force, filters)

    def one(kind, cached, force, k):
        ctx.step()
        d = scratch("one")
        if kind == "svo":
            path, old, new = d / "SLOAN/SDSS" / "g.xml", votable(k + 5), votable(k)
            fn = lambda **kw: Passband.from_svo("SLOAN/SDSS.g", table_dir=d, trim_quantile=None, delta_wave=None, **kw)  # noqa: E731
        elif kind == "svo group":
            path, old, new = d / "SLOAN/SDSS" / "g.xml", votable(k + 5), votable(k)
            fn = lambda **kw: PassbandGroup.from_svo(["SLOAN/SDSS.g"], table_dir=d, trim_quantile=None, delta_wave=None, **kw)["g"]  # noqa: E731
        elif kind == "file":
            path, old, new = d / "x" / "g.dat", table(k + 5), table(k)
            fn = lambda **kw: Passband.from_file("S", "g", table_path=path, table_url="https://host/g", trim_quantile=None, delta_wave=None, **kw)  # noqa: E731
        else:
            path, old, new = d / "x" / "g.dat", table(k + 5), table(k)
            fn = lambda **kw: PassbandGroup({"survey": "S", "filter_name": "g", "table_path": path, "table_url": "https://host/g", **kw}, trim_quantile=None, delta_wave=None)["g"]  # noqa: E731
        if cached:
            path.parent.mkdir(parents=True)
            path.write_bytes(old)
        kw = {} if force is None else {"force_download": force}
        pb, calls = run(lambda url: new, lambda: fn(**kw))
        used = k + 5 if cached and not force else k
        ctx.eq(peak(pb)[0], [4000.0 + 100 * used + 50 * i for i in range(8)], f"{kind}: wavelengths (cached {cached}, force {force})")
        ctx.eq([c[1] for c in calls], [] if cached and not force else [str(path)], "downloads")
        if calls and "svo" in kind:
            ctx.check(calls[0][0].endswith("fps.php?ID=SLOAN/SDSS.g"), f"address {calls[0][0]}")
        if calls and "svo" not in kind:
            ctx.eq(calls[0][0], "https://host/g", "address")
        # an unreachable server: an error, and the cached file stays
        before = path.read_bytes()
        if force:
            ctx.raises(Exception, lambda: run(lambda url: None, lambda: fn(force_download=True)), "forced without a server")
            ctx.eq(path.read_bytes(), before, "cached file after a failed refresh")
        pb2, calls = run(lambda url: None, lambda: fn())
        ctx.eq(peak(pb2), peak(pb), "loaded again without a server")
        path.unlink()
        ctx.raises(Exception, lambda: run(lambda url: None, lambda: fn()), "nothing cached and no server")
        ctx.state((kind, cached, force, k))
        ctx.outcome(kind)

    for kind in ("svo", "svo group", "file", "dict"):
        for cached in (False, True):
            for force in (None, False, True):
                for k in (0, 3):
                    ctx.case([kind, cached, force, k], one, kind, cached, force, k)

    def svos(cached, force, order, form):
        # a group of several filters: any of them may be there already, all are current when forced
        ctx.step()
        d = scratch("svos")
        path = lambda c: d / ("SLOAN/SDSS" if form == "svo" else "x") / f"{c}.{'xml' if form == 'svo' else 'dat'}"  # noqa: E731
        body = votable if form == "svo" else table
        for c in cached:
            path(c).parent.mkdir(parents=True, exist_ok=True)
            path(c).write_bytes(body(order.index(c) + 10))
        kw = {"trim_quantile": None, "delta_wave": None}
        if form == "svo":
            fk = {} if force is None else {"force_download": force}
            fn = lambda: PassbandGroup.from_svo([f"SLOAN/SDSS.{c}" for c in order], table_dir=d, **kw, **fk)  # noqa: E731
            served = lambda url: votable(order.index(url[-1]))  # noqa: E731
        else:
            forced = order if force else order[1:2] if form == "mixed" else ""
            par = [{"survey": "S", "filter_name": c, "table_path": path(c), "table_url": f"https://host/{c}", **({"force_download": True} if c in forced else {})} for c in order]
            fn = lambda: PassbandGroup(par, **kw)  # noqa: E731
            served = lambda url: table(order.index(url[-1]))  # noqa: E731
        pbg, calls = run(served, fn)
        ctx.eq(list(pbg.filters), list(order) if form == "svo" else list(pbg.filters), "filters")
        ctx.eq(sorted(pbg.filters), sorted(order), "filters")
        got = []
        for i, c in enumerate(order):
            fresh = c not in cached or (bool(force) if form != "mixed" else c in forced)
            k = i if fresh else i + 10
            ctx.eq(peak(pbg[c])[0], [4000.0 + 100 * k + 50 * j for j in range(8)], f"{form} table of {c} (cached {cached}, force {force})")
            got += [str(path(c))] if fresh else []
        ctx.eq(sorted(full for _, full in calls), sorted(got), "downloads")
        ctx.state(("svos", cached, force, order, form))
        ctx.outcome("several")

    for form in ("svo", "dict", "mixed"):
        for order in ("gri", "rg"):
            for r in range(len(order) + 1):
                for cached in itertools.combinations(order, r):
                    for force in (None, False, True):
                        ctx.case(["several", form, order, cached, force], svos, cached, force, order, form)

    def rom(cached, force, filters, units):
        ctx.step()
        d = scratch("roman")
        path = d / "Roman" / "roman_wfi_filters.ecsv"
        if cached:
            path.parent.mkdir()
            path.write_bytes(roman(1))
        kw = {"delta_wave": None, "trim_quantile": None}
        if force is not None:
            kw["force_download"] = force
        if units is not None:
            kw["units"] = units
        fn = lambda: PassbandGroup.from_preset("Roman", table_dir=d, filters=filters, **kw)  # noqa: E731
        if units not in (None, "micron"):
            ctx.raises(ValueError, lambda: run(lambda url: roman(0), fn), f"Roman in {units}")
            return
        pbg, calls = run(lambda url: roman(0), fn)
        k = 1 if cached and not force else 0
        ctx.eq(sorted(pbg.filters), sorted(filters or ROMAN_F), "filters")
        for j, f in enumerate(ROMAN_F):
            if filters and f not in filters:
                continue
            w, t = peak(pbg[f])
            ctx.check(np.allclose(w, [4000.0 + 500 * i for i in range(8)]), f"wavelengths {w}")
            vals = [(i * (j + 2 + k)) % 7 + 1 for i in range(8)]
            ctx.eq(t, [round(v / max(vals), 9) for v in vals], f"table of {f} (cached {cached}, force {force})")
        ctx.eq([c[1] for c in calls], [] if cached and not force else [str(path)], "downloads")
        ctx.state(("roman", cached, force, filters, units))
        ctx.outcome("roman")

    for cached, force, units in itertools.product((False, True), (None, False, True), (None, "micron", "A")):
        for filters in (None, ["F146", "F213"]):
            ctx.case(["roman", cached, force, filters, units], rom, cached, force, filters, units)

    def opsim(cached, force, name):
        import sqlite3

        import lightcurvelynx.obstable.opsim as mod

        ctx.step()
        d = scratch("opsim")

        def db(k):
            p = d / f"make{k}.db"
            p.unlink(missing_ok=True)
            con = sqlite3.connect(p)
            con.execute("create table observations (observationId int, observationStartMJD real, fieldRA real, fieldDec real, filter text, airmass real, visitExposureTime real, skyBrightness real, seeingFwhmEff real, numExposures int)")
            for i in range(k + 1):
                con.execute("insert into observations values (?,?,?,?,?,?,?,?,?,?)", (i, 60000.5 + i, 10.0 + i, -20.0, "r", 1.25, 30.0, 21.0, 0.8, 1))
            con.commit()
            con.close()
            return p.read_bytes()

        path = d / "base" / "opsim" / name
        if cached:
            path.parent.mkdir(parents=True)
            path.write_bytes(db(3))
        kw = {} if force is None else {"force_download": force}
        url = f"https://s3df.slac.stanford.edu/data/sims/{name}"
        with mock.patch.object(mod, "_LIGHTCURVELYNX_BASE_DATA_DIR", d / "base"):
            t, calls = run(lambda u: db(1), lambda: mod.OpSim.from_url(url, **kw))
            fresh = not cached or bool(force)
            ctx.eq([float(v) for v in t["time"]], [60000.5 + i for i in range(2 if fresh else 4)], f"times (cached {cached}, force {force})")
            ctx.eq(calls, [(url, str(path))] if fresh else [], "downloads")
            again, calls = run(lambda u: None, lambda: mod.OpSim.from_url(url))
            ctx.eq([list(again["time"]), calls], [list(t["time"]), []], "loaded again without a server")
        ctx.state(("opsim", cached, force, name))
        ctx.outcome("opsim")

    for cached, force, name in itertools.product((False, True), (None, False, True), ("baseline_v3.4_10yrs.db", "x.db")):
        ctx.case(["opsim", cached, force, name], opsim, cached, force, name)


SECTIONS = [
    ("histories", sec_histories, (2, 4)),
    ("crash", sec_crash),
    ("entries", sec_entries, (2, 2)),
]
