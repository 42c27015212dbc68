import http.server
import io
import os
import ssl
import tempfile
import threading
import urllib.parse
import uuid
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import lightcurvelynx
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.obstable.opsim import OpSim
from lightcurvelynx.utils.data_download import download_data_file_if_needed

from .. import zoo
from ..core import check, close, describe, raises, require, same
from ..gen import fd, seeds

describe(
    "C35",
    "Cases are histories of requests for local files (new, present, forced, without a URL) against a web server on the "
    "loopback interface whose content changes and which sometimes fails (missing, internal error, connection cut half-way, "
    "redirect); after every step all local files are compared with a dictionary model and the requests counted; non-trivial "
    "when at least one forced refresh of an existing file or one failing download of it happened.",
    ["the server is a plain HTTP server on 127.0.0.1; remote hosts cannot be reached here"],
)

os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1"


class Server:
    """Serves the bytes of `content` by path; counts the requests."""

    def __init__(self):
        outer = self
        self.content, self.mode, self.hits = {}, "ok", []

        class Handler(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                path = self.path.split("?")[0]
                if not path.startswith("/moved"):
                    outer.hits.append(self.path)
                body = outer.content.get(path.removeprefix("/moved"))
                if outer.mode == "redirect" and not path.startswith("/moved"):
                    self.send_response(302)
                    self.send_header("Location", "/moved" + self.path)
                    self.end_headers()
                    return
                if body is None or outer.mode == "missing":
                    self.send_error(404)
                    return
                if outer.mode == "error":
                    self.send_error(500)
                    return
                self.send_response(200)
                self.send_header("Content-Type", "application/octet-stream")
                self.send_header("Content-Length", str(len(body) + (7 if outer.mode == "cut" else 0)))
                self.end_headers()
                self.wfile.write(body)

            def do_CONNECT(self):
                outer.hits.append(self.path)
                self.send_error(502)

            def log_message(self, *args):
                pass

        self.server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.url = f"http://127.0.0.1:{self.server.server_port}"

    def __enter__(self):
        self.thread = threading.Thread(target=self.server.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True)
        self.thread.start()
        return self

    def __exit__(self, *args):
        self.server.shutdown()
        self.server.server_close()


def listing(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in Path(root).rglob("*") if p.is_file()}


FILES = ["a.dat", "deep/er/b.csv", "a b#1.txt", "deep/c"]
OP = st.one_of(
    fd({"op": st.just("get"), "file": st.sampled_from(FILES), "force": st.booleans(), "url": st.sampled_from(["ok", "query", "ok", "ok", "none", "empty"]), "as": st.sampled_from(["path", "str"])}),
    fd({"op": st.just("get"), "file": st.sampled_from(FILES[:2]), "force": st.booleans(), "url": st.just("ok"), "as": st.sampled_from(["path", "str"])}),
    fd({"op": st.just("serve"), "mode": st.sampled_from(["ok", "cut", "missing", "ok", "redirect", "error"]), "size": st.sampled_from([5, 0, 1, 70000])}),
    fd({"op": st.sampled_from(["edit", "delete"]), "file": st.sampled_from(FILES)}),
)


@check("C35", fd({"ops": st.lists(OP, min_size=3, max_size=14), "seed": seeds()}), quick=250)
def histories(case, rec):
    g = np.random.default_rng(case["seed"])
    model = {}
    with tempfile.TemporaryDirectory() as tmp, Server() as server:
        root = Path(tmp) / "local"
        root.mkdir()
        server.content = {"/" + str(i): g.bytes(11) for i in range(len(FILES))}
        for n, op in enumerate(case["ops"]):
            if op["op"] == "serve":
                server.mode = op["mode"]
                server.content = {k: g.bytes(op["size"] + i) for i, k in enumerate(server.content)}
                continue
            path = root / op["file"]
            if op["op"] == "edit":
                path.parent.mkdir(parents=True, exist_ok=True)
                model[op["file"]] = g.bytes(6)
                path.write_bytes(model[op["file"]])
                continue
            if op["op"] == "delete":
                path.unlink(missing_ok=True)
                model.pop(op["file"], None)
                continue
            remote = "/" + str(FILES.index(op["file"]))
            url = {"ok": server.url + remote, "query": server.url + remote + "?raw=true", "none": None, "empty": ""}[op["url"]]
            before = len(server.hits)
            what = f"step {n} {op} server {server.mode}"

            def call(path=path, url=url, op=op):
                return download_data_file_if_needed(path if op["as"] == "path" else str(path), url, force_download=op["force"])

            present = op["file"] in model
            if present and not op["force"]:
                require(call() is True, f"{what}: present, result")
                require(len(server.hits) == before, f"{what}: a file already present was requested again")
            elif op["url"] in ("none", "empty"):
                raises(ValueError, call, f"{what}: no URL")
                require(len(server.hits) == before, f"{what}: requests without a URL")
            elif server.mode in ("ok", "redirect"):
                require(call() is True, f"{what}: result")
                require(len(server.hits) == before + 1, f"{what}: {len(server.hits) - before} requests")
                require(server.hits[-1] == url[len(server.url):], f"{what}: asked for {server.hits[-1]}")
                model[op["file"]] = server.content[remote]
                if present:
                    rec.nontrivial()
            else:
                try:
                    done = call()
                except Exception as e:
                    done, kind = False, type(e).__name__
                    rec.label(kind)
                require(done is False, f"{what}: a failing download is reported as {done}")
                require(len(server.hits) > before, f"{what}: no request")
                if present:
                    rec.nontrivial()
            got = listing(root)
            require(set(got) == set(model), f"{what}: files {sorted(got)}, expected {sorted(model)}")
            for k in model:
                require(got[k] == model[k], f"{what}: content of {k} is {got[k][:20]!r} ({len(got[k])} bytes), expected {model[k][:20]!r}")
            rec.label(server.mode)


def text(tab, factor, sep):
    return "\n".join(f"{w / factor!r}{sep}{t!r}" for w, t in tab.tolist()).encode()


@check("C35", fd({"ext": st.sampled_from([".dat", ".csv", ".txt"]), "unit": st.sampled_from(["A", "nm"]), "n": st.sampled_from([2, 1, 3]), "how": st.sampled_from(["single", "group", "dict"]), "seed": seeds()}), quick=60)
def passband_tables(case, rec):
    """Passband tables are downloaded once, used from the local copy afterwards, and refreshed on request."""
    g = np.random.default_rng(case["seed"])
    n, ext = case["n"], case["ext"]
    sep = "," if ext == ".csv" else " "
    factor = {"A": 1.0, "nm": 10.0}[case["unit"]]
    names = ["u", "g2", "Long_name"][:n]

    def table():
        w = np.arange(4000.0, 6000.0, 40.0) + 1000 * g.integers(0, 3)
        return np.column_stack([w, np.round(g.uniform(0.1, 1.0, len(w)), 6)])

    with tempfile.TemporaryDirectory() as tmp, Server() as server:
        kw = {"units": case["unit"], "delta_wave": 7.0, "trim_quantile": None}

        def publish():
            tabs = [table() for _ in names]
            server.content = {f"/{k}{ext}": text(t, factor, sep) for k, t in zip(names, tabs, strict=True)}
            return tabs

        def load(**more):
            par = [{"survey": "Sur", "filter_name": k, "table_path": os.path.join(tmp, "x", "Sur", k + ext), "table_url": f"{server.url}/{k}{ext}"} for k in names]
            if case["how"] == "single":
                return [Passband.from_file(p.pop("survey"), p.pop("filter_name"), **p, **kw, **more) for p in par]
            if case["how"] == "group":
                return [PassbandGroup(par, **kw, **more)[k] for k in names]
            group = PassbandGroup([dict(p, **kw, **more) for p in par])
            return [group[k] for k in names]

        def agree(got, tabs, what):
            for pb, t, k in zip(got, tabs, names, strict=True):
                want = Passband(t, "Sur", k, delta_wave=7.0, trim_quantile=None)
                require(pb.full_name == "Sur_" + k, pb.full_name)
                close(pb.processed_transmission_table, want.processed_transmission_table, rtol=1e-9, msg=f"{what}: {k}")

        first = publish()
        agree(load(), first, "first load")
        asked = len(server.hits)
        require(asked >= n, "requests")
        second = publish()
        agree(load(), first, "local copies")
        require(len(server.hits) == asked, "local copies are requested again")
        agree(load(force_download=True), second, "refreshed")
        asked = len(server.hits)
        publish()
        agree(load(force_download=False), second, "local copies after a refresh")
        require(len(server.hits) == asked, "local copies are requested again")
        server.mode = "missing"
        try:
            load(force_download=True)
            require(False, "a failing refresh is not reported")
        except Exception as e:
            require(not isinstance(e, AssertionError) and type(e).__name__ != "Violation", str(e))
        agree(load(), second, "after a failing refresh")
        os.remove(os.path.join(tmp, "x", "Sur", names[0] + ext))
        server.mode = "ok"
        third = publish()
        agree(load(), third[:1] + second[1:], "after one file was removed")
    rec.label(case["how"], ext, case["unit"])
    rec.nontrivial()


@check("C35", fd({"what": st.sampled_from(["svo", "svo group", "lsst", "roman"]), "present": st.booleans(), "seed": seeds()}), quick=24)
def services(case, rec):
    """Files of named services are used when present, and asked for at the service (reached through a proxy that refuses) otherwise."""
    g = np.random.default_rng(case["seed"])
    w = np.arange(4000.0, 5000.0, 25.0)
    kw = {"delta_wave": None, "trim_quantile": None}
    old = os.environ.get("HTTPS_PROXY"), os.environ.get("https_proxy")
    with tempfile.TemporaryDirectory() as tmp, Server() as server:
        os.environ["HTTPS_PROXY"] = os.environ["https_proxy"] = server.url
        try:
            tab = np.column_stack([w, np.round(g.uniform(0.1, 1, len(w)), 6)])
            if case["what"].startswith("svo"):
                from astropy import units as u
                from astropy.table import Table

                t = Table()
                t["Wavelength"], t["Transmission"] = tab[:, 0] * u.AA, tab[:, 1]
                files = [os.path.join(tmp, "Obs", k) for k in ("Cam.xml",)]
                os.makedirs(os.path.dirname(files[0]))
                t.write(files[0], format="votable")
                host = "svo2.cab.inta-csic.es:443"
                if case["what"] == "svo":
                    load = lambda **k: [Passband.from_svo("Obs.Cam", table_dir=tmp, **kw, **k)]  # noqa: E731
                else:
                    load = lambda **k: list(PassbandGroup.from_svo(["Obs.Cam"], table_dir=tmp, **kw, **k))  # noqa: E731
            elif case["what"] == "lsst":
                files = [os.path.join(tmp, "LSST", f"{k}.dat") for k in "ugrizy"]
                os.makedirs(os.path.dirname(files[0]))
                for f in files:
                    with open(f, "wb") as out:
                        out.write(text(tab, 10.0, " "))
                host = "github.com:443"
                load = lambda **k: list(PassbandGroup.from_preset("LSST", table_dir=tmp, **kw, **k))  # noqa: E731
            else:
                files = [os.path.join(tmp, "Roman", "roman_wfi_filters.ecsv")]
                os.makedirs(os.path.dirname(files[0]))
                cols = ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]
                with open(files[0], "w") as out:
                    out.write("\n".join([",".join(["Wave", *cols])] + [",".join(repr(float(x)) for x in [a / 1e4] + [b] * 8) for a, b in tab]))
                host = "github.com:443"
                load = lambda **k: list(PassbandGroup.from_preset("Roman", table_dir=tmp, **kw, **k))  # noqa: E731
            before = listing(tmp)
            want = Passband(tab, "S", "f", **kw).processed_transmission_table
            if not case["present"]:
                gone = files[int(g.integers(len(files)))]
                os.remove(gone)
                before.pop(os.path.relpath(gone, tmp))
            for more in ({}, {"force_download": False}, {"force_download": True}, {}):
                asked = len(server.hits)
                if case["present"] and not more.get("force_download"):
                    for pb in load(**more):
                        close(pb.processed_transmission_table, want, rtol=1e-9, msg=f"{case['what']} {more}")
                    require(len(server.hits) == asked, f"{case['what']} {more}: a local file is asked for")
                else:
                    try:
                        load(**more)
                        failed = False
                    except Exception:
                        failed = True
                    require(failed, f"{case['what']} {more}: a failing download is not reported")
                    require(host in server.hits[asked:], f"{case['what']} {more}: {server.hits[asked:]} asked for, not {host}")
                require(listing(tmp) == before, f"{case['what']} {more}: local files changed")
        finally:
            for k, v in zip(("HTTPS_PROXY", "https_proxy"), old, strict=True):
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
    rec.label(case["what"])
    rec.nontrivial()


@check("C35", fd({"n": st.sampled_from([8, 1, 30]), "query": st.booleans(), "seed": seeds()}), quick=12)
def surveys(case, rec):
    """A survey is downloaded into the package's own (git-ignored) data folder, under a name used only here."""
    folder = lightcurvelynx._LIGHTCURVELYNX_BASE_DATA_DIR / "opsim"
    made = not folder.exists()
    name = f"verif_{uuid.uuid4().hex}.db"
    with tempfile.TemporaryDirectory() as tmp, Server() as server:
        def publish(k):
            t = zoo.opsim(case["n"], (case["seed"] + k) % 100000)
            path = os.path.join(tmp, f"{k}.db")
            t.write_db(path)
            with open(path, "rb") as f:
                server.content = {"/run/" + name: f.read()}
            return OpSim.from_db(path)

        def agree(got, want, what):
            require(isinstance(got, OpSim) and len(got) == len(want), f"{what}: {len(got)} rows, expected {len(want)}")
            for c in ("time", "ra", "dec", "filter", "zp"):
                same(got[c].to_numpy(), want[c].to_numpy(), f"{what}: {c}")

        try:
            url = f"{server.url}/run/{name}"
            a = publish(0)
            agree(OpSim.from_url(url), a, "first load")
            b = publish(1)
            agree(OpSim.from_url(url), a, "local copy")
            require(len(server.hits) == 1, f"{len(server.hits)} requests for one download")
            agree(OpSim.from_url(url, force_download=True), b, "refreshed")
            server.mode = "cut"
            try:
                OpSim.from_url(url, force_download=True)
                failed = False
            except Exception:
                failed = True
            require(failed, "a failing refresh is not reported")
            agree(OpSim.from_url(url), b, "after a failing refresh")
        finally:
            for p in folder.glob(name + "*"):
                p.unlink()
            if made and folder.exists() and not any(folder.iterdir()):
                folder.rmdir()
    rec.nontrivial()


TLS = Path(__file__).resolve().parent.parent / "tls"  # a certificate of this check alone, trusted by nobody else


class Internet(Server):
    """A proxy that answers for the services themselves: `answer(url)` gives the bytes, or None (not found)."""

    def __init__(self, answer):
        super().__init__()
        context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        context.load_cert_chain(TLS / "c.pem", TLS / "k.pem")
        outer, plain = self, self.server.RequestHandlerClass

        class Handler(plain):
            def do_CONNECT(self):
                self.send_response(200)
                self.end_headers()
                self.wfile.flush()
                host = self.path.rsplit(":", 1)[0]
                try:
                    with context.wrap_socket(self.connection, server_side=True) as sock:
                        with sock.makefile("rb") as lines:
                            target = lines.readline().decode().split(" ")[1]
                            while lines.readline().strip():
                                pass
                        url = f"https://{host}{target}"
                        outer.hits.append(url)
                        body = answer(url)
                        if body is None:
                            sock.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
                        else:
                            sock.sendall(b"HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
                except OSError:
                    pass
                self.close_connection = True

        self.server.RequestHandlerClass = Handler


def votable(tab):
    from astropy import units as u
    from astropy.table import Table

    t = Table()
    t["Wavelength"], t["Transmission"] = tab[:, 0] * u.AA, tab[:, 1]
    out = io.BytesIO()
    t.write(out, format="votable")
    return out.getvalue()


ROMAN = ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]


@check("C35", fd({"what": st.sampled_from(["svo group", "lsst", "roman", "svo"]), "k": st.sampled_from([2, 3]), "seed": seeds()}), quick=24)
def services_answer(case, rec):
    """Named services reached through a proxy that answers for them: every file is the service's own, also after a refresh."""
    g = np.random.default_rng([case["seed"], 35])
    w = np.arange(4000.0, 5000.0, 25.0)
    kw = {"delta_wave": None, "trim_quantile": None}
    what = case["what"]
    names = {"svo": ["Cam"], "svo group": ["Cam", "r", "b2"][: case["k"]], "lsst": list("ugrizy"), "roman": ROMAN}[what]
    tables, missing = {}, set()

    def publish(keep=()):
        for n in names:
            if n not in keep:
                tables[n] = np.column_stack([w, np.round(g.uniform(0.1, 1, len(w)), 6)])

    def answer(url):
        parts = urllib.parse.urlsplit(url)
        if what.startswith("svo"):
            n = urllib.parse.parse_qs(parts.query).get("ID", [""])[0].removeprefix("Obs.")
        elif what == "lsst":
            n = parts.path.rsplit("/", 1)[-1].removeprefix("total_").removesuffix(".dat")
        else:
            n = ROMAN[0]
        if n not in tables or n in missing:
            return None
        if what.startswith("svo"):
            return votable(tables[n])
        if what == "lsst":
            return text(tables[n], 10.0, " ")
        rows = [",".join(["Wave", *ROMAN])] + [",".join(repr(float(x)) for x in [w[i] / 1e4] + [tables[m][i, 1] for m in ROMAN]) for i in range(len(w))]
        return "\n".join(rows).encode()

    with tempfile.TemporaryDirectory() as tmp, Internet(answer) as server:
        env = {"HTTPS_PROXY": server.url, "https_proxy": server.url, "REQUESTS_CA_BUNDLE": str(TLS / "c.pem"), "SSL_CERT_FILE": str(TLS / "c.pem")}
        old = {k: os.environ.get(k) for k in env}
        os.environ.update(env)

        def load(**k):
            if what == "svo":
                return [Passband.from_svo("Obs." + names[0], table_dir=tmp, **kw, **k)]
            if what == "svo group":
                return list(PassbandGroup.from_svo(["Obs." + n for n in names], table_dir=tmp, **kw, **k))
            return list(PassbandGroup.from_preset({"lsst": "LSST", "roman": "Roman"}[what], table_dir=tmp, **kw, **k))

        def agree(got, want, msg):
            require([pb.filter_name for pb in got] == names, f"{what}, {msg}: passbands {[pb.filter_name for pb in got]}")
            for pb in got:
                exp = Passband(want[pb.filter_name], "S", "f", **kw).processed_transmission_table
                close(pb.processed_transmission_table, exp, rtol=1e-9, msg=f"{what}, {msg}: {pb.filter_name}")

        try:
            publish()
            agree(load(), tables, "first load")
            files = listing(tmp)
            per_load = 1 if what == "roman" else len(names)
            require(len(files) == len(server.hits) == per_load, f"{what}: {len(files)} files from {len(server.hits)} requests, expected {per_load}")
            first = dict(tables)
            publish()
            agree(load(), first, "local copy")
            require(len(server.hits) == per_load and listing(tmp) == files, f"{what}: a local file is asked for")
            agree(load(force_download=True), tables, "refreshed")
            require(len(server.hits) == 2 * per_load, f"{what}: {len(server.hits) - per_load} requests for a refresh")
            second, files = dict(tables), listing(tmp)
            publish()
            missing.add(names[int(g.integers(len(names)))] if what != "roman" else ROMAN[0])
            try:
                load(force_download=True)
                failed = False
            except Exception:
                failed = True
            require(failed, f"{what}: a failing refresh is not reported")
            got = load()
            for pb in got:
                n = pb.filter_name
                options = [second[n]] if n in missing or what == "roman" else [second[n], tables[n]]
                exp = [Passband(x, "S", "f", **kw).processed_transmission_table for x in options]
                require(any(np.allclose(pb.processed_transmission_table, e, rtol=1e-9) for e in exp), f"{what}, after a failing refresh: {n}")
            require(set(listing(tmp)) == set(files), f"{what}: stray files {set(listing(tmp)) ^ set(files)}")
            # one file is lost: only that one is fetched
            missing.clear()
            agree(load(force_download=True), tables, "refreshed again")
            kept = dict(tables)
            publish()
            gone = sorted(files)[int(g.integers(len(files)))]
            os.remove(os.path.join(tmp, gone))
            asked = len(server.hits)
            got = load()
            require(len(server.hits) == asked + 1, f"{what}: {len(server.hits) - asked} requests for one lost file")
            new = [pb.filter_name for pb in got if not np.allclose(pb.processed_transmission_table, Passband(kept[pb.filter_name], "S", "f", **kw).processed_transmission_table, rtol=1e-9)]
            require(len(new) == (len(names) if what == "roman" else 1), f"{what}: {new} are new")
            agree(got, {n: (tables if n in new else kept)[n] for n in names}, "after one file was lost")
        finally:
            for k, v in old.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
    rec.label(what)
    rec.nontrivial()
