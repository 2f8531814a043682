"""
The simulated deployment of the Carbon SDK: real Python clients (carbon.sdk), the real
`requests` library, the real Node server code, and a simulator that owns everything in
between and around them: the wire, every delay, the wall clock, timers, random numbers,
the chain / SDK back end, server crashes and restarts.

One event queue in simulated milliseconds decides who runs next.  Clients are greenlets
that give up control only at the transport adapter of `requests`; the Node server runs
in a child process that executes exactly one simulator command at a time.
"""
import atexit
import glob
import heapq
import io
import json
import os
import shutil
import signal
import subprocess
import tempfile
from urllib.parse import urlsplit

from . import boot
from .core import HarnessError, h8

NODE = shutil.which("node") or "/usr/bin/node"
HERE = os.path.dirname(os.path.abspath(__file__))
WALLET = "0xC0FFEE254729296a45a3885639AC7E10F9d54979"

_dir = None


def server_dir():
    """scratch copy of the server sources next to stub packages (node resolves imports from there)"""
    global _dir
    if _dir is None:
        d = tempfile.mkdtemp(prefix="dstsdk")
        src = os.path.join(boot.REPO, "resources", "sdk", "server")
        for root, dirs, files in os.walk(src):
            dirs[:] = [x for x in dirs if x not in ("node_modules", "tests")]
            rel = os.path.relpath(root, src)
            os.makedirs(os.path.join(d, rel), exist_ok=True)
            for f in files:
                if f.endswith((".mjs", ".js", ".cjs", ".json")):
                    shutil.copy(os.path.join(root, f), os.path.join(d, rel, f))
        shutil.copytree(os.path.join(HERE, "node", "stubs"), os.path.join(d, "node_modules"))
        _dir = d
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _dir


class Server:
    """one incarnation of the Node server"""

    def __init__(self, port, token, now, seed):
        env = {"PATH": os.environ.get("PATH", ""), "HOME": "/nonexistent", "TZ": "UTC",
               "SDKSERVER_MEMONICPHRASE": "test test test test test test test test test test test junk",
               "SDKSERVER_RPCURL": "http://rpc.invalid",
               "DST_SERVER": json.dumps({"dir": server_dir(), "argv": [str(port), token], "now": now,
                                         "seed": seed, "wallet": WALLET})}
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([NODE, "--no-warnings", os.path.join(HERE, "node", "harness.mjs")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  text=True, env=env, cwd=server_dir())
        first = self._read()
        self.boot_error = first.get("boot")
        self.boot_events = first["events"]
        self.up = True

    def _read(self):
        line = self.p.stdout.readline()
        if not line:
            self.errf.seek(0)
            raise HarnessError("node harness died: " + self.errf.read().decode()[-1500:])
        return json.loads(line)

    def cmd(self, **kw):
        self.p.stdin.write(json.dumps(kw) + "\n")
        self.p.stdin.flush()
        return self._read()["events"]

    def kill(self):
        self.up = False
        try:
            self.p.send_signal(signal.SIGKILL)
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
        except Exception:
            pass
        self.errf.close()


class Wire:
    """one HTTP request on the simulated network"""
    __slots__ = ("wid", "client", "op", "ix", "method", "host", "port", "path", "headers", "body", "t0", "plan",
                 "fault", "delivered", "gen", "srv", "replies", "outcome", "resume", "ncalls", "t_deliver",
                 "t_end", "raw", "killed")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))
        self.replies = []
        self.ncalls = 0

    @property
    def token(self):
        for k, v in (self.headers or {}).items():
            if k.lower() == "token":
                return v
        return None

    def json(self):
        try:
            return json.loads(self.body)
        except Exception:
            return None


class World:
    MAXEV = 4000

    def __init__(self, res, seed, servers, backend, epoch=1680000000000):
        """servers: {port: token}; backend(world, wire, name, args, i) -> dict(ok, value|err, delay)"""
        import requests
        import greenlet
        self.requests = requests
        self.greenlet = greenlet
        self.res = res
        self.seed = seed
        self.heap = []
        self.seq = 0
        self.now = 0.0
        self.epoch = epoch
        self.skew = 0
        self.backend = backend
        self.tokens = dict(servers)
        self.servers = {}
        self.gen = {}
        self.wires = []
        self.calls = []                 # backend calls, in order
        self.crashes = []               # server deaths not ordered by the simulator
        self.doublesends = []
        self.inflight = set()
        self.live = 0
        self.current = None
        self.sched = []                 # the schedule: what kind of event ran, for whom
        for port in self.tokens:
            self.boot(port)

    # -------------------------------------------------------------- plumbing
    def log(self, s):
        self.res.trace.append(f"{self.now:.0f} {s}")

    def at(self, dt, f, *a):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(0.0, dt), self.seq, f, a))

    def wall(self):
        return int(self.epoch + self.now + self.skew)

    def boot(self, port):
        self.gen[port] = self.gen.get(port, 0) + 1
        s = Server(port, self.tokens[port], self.wall(), (self.seed * 7919 + port * 31 + self.gen[port]) & 0x7fffffff)
        if s.boot_error:
            s.kill()
            raise ServerBroken(s.boot_error)
        if not any(e["ev"] == "listening" and e["port"] == port for e in s.boot_events):
            s.kill()
            raise ServerBroken(f"server did not listen on port {port}: {s.boot_events}")
        self.servers[port] = s
        self.handle_events(port, s.boot_events)

    def crash(self, port, down):
        s = self.servers[port]
        if not s.up:
            return
        self.res.faults["server crash"] += 1
        self.log(f"CRASH server {port}")
        self._down(port, "crash")
        self.at(down, self.restart, port)

    def _down(self, port, why):
        s = self.servers[port]
        s.kill()
        for w in sorted(self.inflight, key=lambda w: w.wid):
            if w.port == port and w.gen == self.gen[port] and w.delivered:
                w.killed = why
                self.finish(w, exc="aborted")

    def restart(self, port):
        if not self.servers[port].up:
            self.log(f"RESTART server {port}")
            self.boot(port)

    def command(self, port, **kw):
        s = self.servers[port]
        if not s.up:
            return
        ev = s.cmd(now=self.wall(), **kw)
        self.handle_events(port, ev)

    def handle_events(self, port, events):
        died = None
        for e in events:
            k = e["ev"]
            if k == "reply":
                w = self.wires[e["rid"]]
                w.replies.append(e)
                self.log(f"reply w{w.wid} {e['status']} {h8(canon(e['body'], self))}")
                if len(w.replies) == 1:
                    self.reply(w, e)
            elif k == "doublesend":
                self.doublesends.append(e["rid"])
                self.log(f"second send w{e['rid']}")
            elif k == "call":
                w = self.wires[e["rid"]] if e.get("rid") is not None else None
                rec = {"k": e["k"], "port": port, "gen": self.gen[port], "w": w, "name": e["name"], "args": e["args"],
                       "t": self.now, "settled": None, "i": w.ncalls if w else 0}
                self.calls.append(rec)
                self.log(f"call {e['name']} w{w.wid if w else None} {h8(e['args'])}")
                if w:
                    w.ncalls += 1
                if not e.get("sync"):
                    o = self.backend(self, w, e["name"], e["args"], rec["i"])
                    rec["outcome"] = o
                    if o is not None:
                        self.at(o.get("delay", 1), self.settle, port, self.gen[port], rec, o)
            elif k == "timer":
                self.at(e["delay"], self.fire, port, self.gen[port], e["id"])
            elif k == "crash":
                died = e["msg"]
        if died is not None:
            self.crashes.append({"port": port, "msg": died, "t": self.now})
            self.log(f"SERVER DIED {died}")
            self._down(port, "died")
            self.at(50, self.restart, port)

    def settle(self, port, gen, rec, o):
        if self.gen[port] != gen or not self.servers[port].up:
            return
        self.sched.append(("settle", rec["w"].wid if rec["w"] else None))
        rec["settled"] = self.now
        if not o["ok"]:
            self.res.faults["backend failure"] += 1
        self.log(f"settle {rec['name']} {'ok' if o['ok'] else 'fail'}")
        self.command(port, cmd="settle", k=rec["k"], ok=o["ok"], value=o.get("value"), err=o.get("err"))

    def fire(self, port, gen, tid):
        if self.gen[port] != gen or not self.servers[port].up:
            return
        self.sched.append(("timer", tid))
        self.command(port, cmd="fire", id=tid)

    # -------------------------------------------------------------- the wire
    def send(self, prepared):
        """called in a client greenlet through the transport adapter of `requests`"""
        g = self.greenlet.getcurrent()
        cl = getattr(g, "dst_client", None)
        if cl is None:
            raise HarnessError("request sent outside a simulated client")
        u = urlsplit(prepared.url)
        body = prepared.body
        if isinstance(body, bytes):
            body = body.decode("utf-8", "replace")
        port = u.port or (443 if u.scheme == "https" else 80)
        w = Wire(wid=len(self.wires), client=cl.ix, op=cl.op_ix, ix=cl.nreq, method=prepared.method, host=u.hostname,
                 port=port, path=u.path + (("?" + u.query) if u.query else ""),
                 headers=dict(prepared.headers), body=body, t0=self.now, resume=g, raw=False)
        plans = cl.plans or [{}]
        w.plan = plans[min(cl.nreq, len(plans) - 1)]
        cl.nreq += 1
        self.wires.append(w)
        self.inflight.add(w)
        self.launch(w)
        out = g.parent.switch()
        kind, val = out
        if kind == "exc":
            raise self.exception(val, prepared)
        return self.response(val, prepared)

    def inject(self, client, op_ix, method, port, path, headers, body, plan):
        """raw request of an outsider: same wire, no client code"""
        w = Wire(wid=len(self.wires), client=client, op=op_ix, ix=0, method=method, host="localhost", port=port,
                 path=path, headers=headers, body=body, t0=self.now, resume=None, raw=True)
        w.plan = plan
        self.wires.append(w)
        self.inflight.add(w)
        self.launch(w)
        return w

    def launch(self, w):
        f = w.plan.get("fault")
        w.fault = f
        lat = w.plan.get("lat", 1)
        self.log(f"send w{w.wid} c{w.client} {w.method} {w.port}{canon(w.path, self)} {h8(canon(w.body or '', self))} fault={f}")
        if w.host not in ("localhost", "127.0.0.1") or w.port not in self.servers:
            self.at(lat, self.finish, w, "refused")
            return
        if f in ("refused", "lost", "timeout_lost"):
            self.res.faults[f] += 1
            self.at(lat, self.finish, w, {"refused": "refused", "lost": "aborted", "timeout_lost": "timeout"}[f])
        elif f in CANNED:
            self.res.faults[f] += 1
            self.at(lat + w.plan.get("rlat", 1), self.finish, w, None, CANNED[f])
        else:
            self.at(lat, self.deliver, w)

    def deliver(self, w):
        s = self.servers[w.port]
        self.sched.append(("deliver", w.wid))
        if not s.up:
            self.res.faults["server down"] += 1
            self.finish(w, "refused")
            return
        w.delivered = True
        w.t_deliver = self.now
        w.gen = self.gen[w.port]
        self.log(f"deliver w{w.wid}")
        self.command(w.port, cmd="request", rid=w.wid, method=w.method, path=w.path, headers=w.headers, body=w.body,
                     answers=w.plan.get("answers") or {})

    def reply(self, w, e):
        f = w.fault
        rlat = w.plan.get("rlat", 1)
        if f in ("reply_lost", "timeout_reply", "html502_late"):
            self.res.faults[f] += 1
            if f == "html502_late":
                self.at(rlat, self.finish, w, None, CANNED["html502"])
            else:
                self.at(rlat, self.finish, w, {"reply_lost": "aborted", "timeout_reply": "timeout"}[f])
        elif f in ("cut", "cut_detected"):
            self.res.faults[f] += 1
            cut = int(len(e["body"]) * w.plan.get("cutat", 0.5))
            if f == "cut_detected":
                self.at(rlat, self.finish, w, "chunked")
            else:
                self.at(rlat, self.finish, w, None, (e["status"], e["ctype"], e["body"][:cut]))
        else:
            self.at(rlat, self.finish, w, None, (e["status"], e["ctype"], e["body"]))

    def finish(self, w, exc=None, reply=None):
        if w not in self.inflight:
            return
        self.inflight.discard(w)
        self.sched.append(("finish", w.wid))
        w.t_end = self.now
        w.outcome = ("exc", exc) if exc else ("reply", reply)
        self.log(f"finish w{w.wid} {exc or reply[0]}")
        if w.resume is not None:
            self.resume(w.resume, ("exc", exc) if exc else ("reply", reply))

    def resume(self, g, val):
        g.switch(val)

    # -------------------------------------------------------------- requests objects
    def exception(self, kind, prepared):
        ex = self.requests.exceptions
        if kind == "refused":
            return ex.ConnectionError(f"HTTPConnectionPool: Max retries exceeded with url: {prepared.path_url} "
                                      "([Errno 111] Connection refused)", request=prepared)
        if kind == "aborted":
            return ex.ConnectionError("('Connection aborted.', RemoteDisconnected('Remote end closed connection "
                                      "without response'))", request=prepared)
        if kind == "timeout":
            return ex.ReadTimeout("Read timed out.", request=prepared)
        if kind == "chunked":
            return ex.ChunkedEncodingError("Connection broken: IncompleteRead", request=prepared)
        raise HarnessError(kind)

    def response(self, reply, prepared):
        status, ctype, text = reply
        r = self.requests.Response()
        r.status_code = status
        r._content = text.encode("utf-8")
        r._content_consumed = True
        r.headers = self.requests.structures.CaseInsensitiveDict({"Content-Type": ctype})
        r.encoding = "utf-8"
        r.url = prepared.url
        r.request = prepared
        r.raw = io.BytesIO(b"")
        r.reason = "OK" if status == 200 else "Error"
        return r

    # -------------------------------------------------------------- the loop
    def start(self, client, dt=0):
        g = self.greenlet.greenlet(client.main)
        g.dst_client = client
        client.world = self
        client.g = g
        self.live += 1
        self.at(dt, self._first, g)

    def _first(self, g):
        g.switch()

    def sleep(self, ms):
        """called in a client greenlet"""
        g = self.greenlet.getcurrent()
        self.at(ms, self._first, g)
        g.parent.switch()

    def run(self):
        import requests.adapters as ra
        orig = ra.HTTPAdapter.send
        world = self

        def send(adapter, request, **kw):
            return world.send(request)
        ra.HTTPAdapter.send = send
        n = 0
        try:
            while self.heap:
                n += 1
                if n > self.MAXEV:
                    self.res.violate("the run does not end", f"clients and servers still exchange messages after {self.MAXEV} events")
                    break
                t, _, f, a = heapq.heappop(self.heap)
                self.now = max(self.now, t)
                f(*a)
        finally:
            ra.HTTPAdapter.send = orig
            for w in list(self.inflight):
                if w.resume is not None and not w.resume.dead:
                    try:
                        w.resume.throw(self.greenlet.GreenletExit)
                    except Exception:
                        pass
            for s in self.servers.values():
                s.kill()
        self.res.simtime += self.now


class ServerBroken(Exception):
    pass


CANNED = {
    "html502": (502, "text/html", "<html><head><title>502 Bad Gateway</title></head></html>"),
    "captive": (200, "text/html", "<html><body>Please log in to the network</body></html>"),
    "empty": (200, "text/plain", ""),
    "json503": (503, "application/json", "{\"message\": \"no server is available to handle this request\"}"),
    "jsonlist": (200, "application/json", "[]"),
    "json404": (404, "application/json", "{\"status\": 404, \"error\": \"Not Found\", \"reqid\": \"8f14e45f-ceea\", \"data\": null}"),
}
PRE_FAULTS = ("refused", "lost", "timeout_lost", "html502", "captive", "empty", "json503", "jsonlist", "json404")
POST_FAULTS = ("reply_lost", "timeout_reply", "html502_late", "cut", "cut_detected")


def canon(text, world):
    """request ids are server-chosen: traces must not depend on how they look"""
    t = str(text)
    for i, r in enumerate(getattr(world, "reqids", ())):
        t = t.replace(str(r), f"<reqid{i}>")
    return t
