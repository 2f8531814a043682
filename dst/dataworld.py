"""
Simulated disk and simulated data provider.

Disk: `builtins.open`/`io.open`, `os.replace`, `os.rename`, `os.remove`, `os.unlink` are
intercepted for paths inside the run's scratch directory.  Files are real but every
system-call sized step (open, read, write, rename, remove) is numbered; a fault
(ordinal, kind) makes that step fail, be short, be torn, or be the moment the process
dies.  A dead process performs no further I/O and its unflushed buffers are lost.

Provider: `requests.adapters.HTTPAdapter.send` is intercepted; each request is logged
and answered by a scripted behaviour.
"""
import builtins
import io
import json
import os
import shutil
import tempfile
from urllib.parse import urlsplit, parse_qsl

from .core import HarnessError

_open = builtins.open
_osopen = io.open


class Crash(BaseException):
    """the simulated process dies here"""


class _Raw(io.RawIOBase):
    def __init__(self, disk, fh, name):
        self.disk, self.fh, self.nm = disk, fh, name

    name = property(lambda self: self.nm)

    def readable(self):
        return self.fh.readable()

    def writable(self):
        return self.fh.writable()

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def seek(self, o, w=0):
        return self.fh.seek(o, w)

    def tell(self):
        return self.fh.tell()

    def truncate(self, n=None):
        if self.disk.dead:
            return 0
        return self.fh.truncate(n)

    def readinto(self, b):
        k = self.disk.step("read")
        if k == "short":
            b = memoryview(b)[:max(1, len(b) // 3)]
        return self.fh.readinto(b)

    def readall(self):
        out = []
        b = bytearray(1024)
        while True:
            n = self.readinto(b)
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))

    def write(self, b):
        if self.disk.dead:
            return len(b)               # buffers of a dead process go nowhere
        k = self.disk.peek("write")
        b = bytes(b)
        if self.disk.broken:            # a full or failing disk stays that way for the operation
            raise OSError(self.disk.ERR["ENOSPC"][0], "injected: still no space left on device")
        if k in ("ENOSPC", "EIO", "crash"):
            self.fh.write(b[:int(len(b) * self.disk.part)])
            self.disk.broken = True
        self.disk.step("write")
        if k == "short" and len(b) > 1:
            return self.fh.write(b[:len(b) // 2])
        return self.fh.write(b)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.fh.close()


class Disk:
    """scratch directory with fault injection; use as a context manager around one operation"""
    KINDS = {"open": ("EACCES", "EMFILE", "crash"), "create": ("EACCES", "ENOSPC", "EMFILE", "crash"),
             "read": ("EIO", "short", "crash"), "write": ("ENOSPC", "EIO", "short", "crash"),
             "rename": ("EIO", "ENOSPC", "crash"), "remove": ("EIO", "crash")}
    ERR = {"EACCES": (13, "Permission denied"), "EMFILE": (24, "Too many open files"), "ENOSPC": (28, "No space left on device"),
           "EIO": (5, "Input/output error")}

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="dstdisk")
        self.reset()

    def reset(self, at=None, kind=None, part=.5):
        """fault `kind` at the at-th step; of a write it interrupts, the given part reaches the disk"""
        self.n, self.at, self.kind, self.part, self.broken = 0, at, kind, part, False
        self.sites, self.dead, self.fired = [], False, None

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def mine(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.root + os.sep)

    def peek(self, what):
        return self.kind if self.n == self.at and self.kind in self.KINDS[what] else None

    def step(self, what):
        if self.dead:
            raise Crash("the process is dead")
        k = self.peek(what)
        self.sites.append(what)
        self.n += 1
        if k:
            self.fired = f"{what} {self.n - 1}: {k}"
            if k == "crash":
                self.dead = True
                raise Crash(self.fired)
            if k in self.ERR:
                raise OSError(self.ERR[k][0], "injected: " + self.ERR[k][1])
        return k

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        create = any(c in mode for c in "wxa")
        self.step("create" if create else "open")
        rm = mode.replace("t", "").replace("b", "") + "b"
        fh = _open(file, rm, 0, opener=opener)
        raw = _Raw(self, fh, file)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 256
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif create:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def _os(self, what, orig):
        def f(src, *a, **kw):
            if self.mine(src) or (a and self.mine(a[0])):
                self.step(what)
            return orig(src, *a, **kw)
        return f

    def __enter__(self):
        self.saved = (builtins.open, io.open, os.replace, os.rename, os.remove, os.unlink)
        builtins.open = io.open = self.open
        os.replace, os.rename = self._os("rename", self.saved[2]), self._os("rename", self.saved[3])
        os.remove, os.unlink = self._os("remove", self.saved[4]), self._os("remove", self.saved[5])
        return self

    def __exit__(self, *a):
        builtins.open, io.open, os.replace, os.rename, os.remove, os.unlink = self.saved

    def contents(self):
        out = {}
        for r, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(r, f)
                with _open(p, "rb") as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out


class Provider:
    """the simulated market data provider and the wire to it"""
    HOST = "min-api.cryptocompare.com"
    KINDS = ["refused", "timeout", "reset", "500", "429", "503html", "401", "apierror", "apierror2", "truncated", "html", "empty", "slow"]

    def __init__(self, key, world):
        self.key = key                 # the key the provider accepts
        self.world = world             # seed of the data it serves
        self.script = []               # behaviours of the next requests
        self.log = []                  # (method, url, params, body, behaviour, data served)

    def data(self, path, q):
        """what the provider would say (the ground truth)"""
        import random
        if path.startswith("/data/v2/histo"):
            f = q.get("fsym")
            t = q.get("tsym")
            unit = {"day": 86400, "hour": 3600, "minute": 60}[path[len("/data/v2/histo"):]]
            r = random.Random(f"{self.world}/{path}/{f}/{t}/{q.get('e')}")
            n = min(int(q.get("limit", 30)), 6) + 1
            to = int(float(q.get("toTs", 1675000000)))
            to -= to % unit
            rows = []
            for i in range(n):
                c = r.random() * 10 ** r.randint(-6, 5)
                rows.append({"time": to - (n - 1 - i) * unit, "high": c * 1.1, "low": c * .9, "open": c * (1 + i / 100),
                             "volumefrom": r.random() * 1e6, "volumeto": r.random() * 1e6, "close": c,
                             "conversionType": "direct", "conversionSymbol": ""})
            if r.random() < .25:              # not traded yet
                for x in rows[:r.randint(1, n)]:
                    x.update({k: 0 for k in ("high", "low", "open", "volumefrom", "volumeto", "close")})
            if n > 2 and r.random() < .25:    # no record for that time
                del rows[r.randrange(n)]
            return {"Aggregated": False, "TimeFrom": rows[0]["time"], "TimeTo": rows[-1]["time"], "Data": rows}
        r = random.Random(f"{self.world}/{path}")
        if r.random() < .2:
            return r.choice([{}, []])
        return {f"ITEM{i}": {"id": r.randint(1, 99999), "path": path, "weight": r.random()} for i in range(r.randint(1, 40))}

    def send(self, request):
        import requests
        u = urlsplit(request.url)
        q = dict(parse_qsl(u.query, keep_blank_values=True))
        b = self.script.pop(0) if self.script else "ok"
        if u.path not in ("/data/v4/all/exchanges", "/stats/rate/limit", "/data/all/coinlist", "/data/index/list",
                          "/data/v2/histoday", "/data/v2/histohour", "/data/v2/histominute"):
            b = "404"
        if self.key is not None and q.get("api_key") not in (self.key, None) and b in ("ok", "slow"):
            b = "apierror"
        served = None
        where = f"HTTPSConnectionPool(host='{u.hostname}', port=443): Max retries exceeded with url: {request.path_url}"
        rec = [request.method, request.url, q, request.body, b, None, dict(request.headers)]
        self.log.append(rec)
        E = requests.exceptions
        if b == "refused":
            raise E.ConnectionError(where + " (injected: connection refused)")
        if b == "timeout":
            raise E.ReadTimeout(where + " (injected: read timed out)")
        if b == "reset":
            raise E.ChunkedEncodingError("injected: connection broken")
        r = requests.Response()
        r.request, r.url = request, request.url
        r.headers["Content-Type"] = "application/json; charset=UTF-8"
        r.encoding = "utf-8"
        r.status_code = {"500": 500, "429": 429, "503html": 503, "401": 401, "404": 404}.get(b, 200)
        r.reason = {200: "OK"}.get(r.status_code, "Error")
        d = self.data(u.path, q) if b != "404" else None
        body = json.dumps({"Response": "Success", "Message": "", "HasWarning": False, "Type": 100, "RateLimit": {}, "Data": d})
        if b in ("ok", "slow"):
            served = d
        elif b == "apierror":
            body = json.dumps({"Response": "Error", "Message": "injected: you are over your rate limit", "Type": 99, "RateLimit": {}, "Data": {}})
        elif b == "apierror2":
            body = json.dumps({"Response": "Error", "Message": "injected: partial answer", "Type": 2, "Data": d})
        elif b in ("500", "429", "401", "404"):
            body = json.dumps({"Response": "Error", "Message": "injected", "Data": {}}) if b != "429" else body
        elif b in ("html", "503html"):
            body = "<html><body>injected: maintenance</body></html>"
        elif b == "truncated":
            body = body[:len(body) * 2 // 3]
        elif b == "empty":
            body = ""
        r._content = body.encode()
        r.raw = io.BytesIO(b"")
        rec[5] = served
        return r

    def __enter__(self):
        import requests.adapters as ra
        self.orig = ra.HTTPAdapter.send
        prov = self
        ra.HTTPAdapter.send = lambda adapter, request, **kw: prov.send(request)
        return self

    def __exit__(self, *a):
        import requests.adapters as ra
        ra.HTTPAdapter.send = self.orig
