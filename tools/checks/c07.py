"""C07: the command channel answers every request once, in order, and survives."""
import base64, struct
from progs import *
import collector
from collector import Eof, Mute, Second

KNOWN = "KEEP_ALIVE OBJECT_RESET_CACHE TRIGGER_THREAD_DUMP OBJECT_DUMP_FILE_LIST OBJECT_DUMP_FILE_DETAIL TRIGGER_BLOCK_PROFILE TRIGGER_MUTEX_PROFILE OBJECT_LIST_HEAP_DUMP OBJECT_DOWNLOAD_HEAP_DUMP OBJECT_DELETE_HEAP_DUMP OBJECT_CALL_CPU_PROFILE OBJECT_CALL_BLOCK_PROFILE OBJECT_CALL_MUTEX_PROFILE GET_CONFIGURE_WAS SET_CONFIGURE_WAS LIST_CONFIGURE_WAS CONFIGURE_VALUE_TYPE CONFIGURE_DESC OBJECT_ACTIVE_SERVICE_LIST OBJECT_THREAD_DETAIL".split()
BLOBS = ("OBJECT_DUMP_FILE_DETAIL", "OBJECT_DOWNLOAD_HEAP_DUMP")
PARAM = {"OBJECT_DUMP_FILE_DETAIL": "name", "OBJECT_DOWNLOAD_HEAP_DUMP": "fileName", "OBJECT_DELETE_HEAP_DUMP": "delfileName", "OBJECT_THREAD_DETAIL": "txid", "SET_CONFIGURE_WAS": "setConfig"}

def value(rng, depth=0):
    r = rng.random()
    if r < 0.15: return None
    if r < 0.3: return rng.choice([0, 1, -1, 127, 128, -129, 40000, 2**31 - 1, -2**31, 2**40, -2**63, 2**63 - 1])
    if r < 0.4: return rng.random() < 0.5
    if r < 0.5: return rng.choice([0.0, 1.5, -1e300])
    if r < 0.75: return rng.choice(["", "x", "../../nothing/here", "é한", "a" * 253, "b" * 254, "c" * 70000, "\0\1\2"])
    if r < 0.8: return bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 300])))
    if depth > 3: return 1
    if r < 0.9: return [value(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {"k%d" % i: value(rng, depth + 1) for i in range(rng.randrange(4))}

class Reqs:
    def __init__(self, rng, text):
        self.rng, self.n, self.text = rng, 0, text
    def good(self, odd=False):
        rng = self.rng
        self.n += 1
        m = {"p%d" % i: value(rng) for i in range(rng.choice([0, 0, 1, 2, 5]))}
        r = rng.random()
        if r < 0.4: cmd = "OBJECT_RESET_CACHE"
        elif r < 0.85: cmd = rng.choice(KNOWN)
        else: cmd = rng.choice(["", "NOPE", "keep_alive", "KEEP_ALIVE ", "OBJECT_RESET_CACHE2", "é" * 200, "x" * 70000, "\0"])
        q = {"cmd": cmd, "map": not odd, "id": "", "class": "good"}
        if cmd == "OBJECT_RESET_CACHE":
            m["id"] = self.n
            q["id"] = norm(wire.e_map(m))
        elif cmd in PARAM:
            if odd: m[PARAM[cmd]] = value(rng)
            elif cmd == "OBJECT_THREAD_DETAIL": m["txid"] = rng.choice([0, 1, -5, 2**62])
            elif cmd != "SET_CONFIGURE_WAS": m[PARAM[cmd]] = rng.choice(["", "x", "big.pprof", "../x", "small.pprof", "no.pprof"])
            if cmd == "SET_CONFIGURE_WAS":
                # never a text with other settings
                if not odd or isinstance(m.get("setConfig"), str): m["setConfig"] = self.text()
        elif odd: m.update((x, value(rng)) for x in rng.sample(["name", "fileName", "txid", "setConfig", "id"], 2))
        return wire.e_request(cmd, m), q
    def bad(self):
        rng = self.rng
        cmd = rng.choice([c for c in KNOWN if c not in BLOBS and c != "SET_CONFIGURE_WAS"] + ["NOPE"])
        c = wire.e_text(cmd)
        body = rng.choice([
            lambda: b"", lambda: bytes(rng.randrange(256) for _ in range(rng.randrange(1, 40))), lambda: c, lambda: c + bytes([rng.randrange(11, 256)]),
            lambda: b"\xff\xff", lambda: b"\xfe\x7f\xff\xff\xff", lambda: b"\xfe\xff\xff\xff\xff" + c, lambda: bytes([200]) + c,
            lambda: c + b"\x0a" + wire.e_dec(2**31), lambda: c + b"\x0a" + wire.e_dec(2**62), lambda: c + b"\x0a\x01\x80", lambda: c + b"\x0a\x09",
            lambda: c + b"\x0a" + wire.e_dec(3) + wire.e_text("a") + b"\0",
            lambda: c + b"\x0a\x01\x01" + wire.e_text("a") + b"\x46" + wire.e_dec(rng.choice([2**31 - 1, 2**40, -1, -2**63])),
            lambda: c + b"\x0a\x01\x01" + wire.e_text("a") + b"\x50" + wire.e_dec(rng.choice([2**31 - 1, 2**40, -1])),
            lambda: c + b"\x0a\x01\x01" + wire.e_text("a") + b"\x46\x01\x01" * rng.choice([10, 1500, 100000]),
            lambda: c + b"\x0a\x01\x01" + wire.e_text("a") + b"\x3c\xfe\x7f\xff\xff\xff",
            lambda: c + b"\x0a\x01\x01" + wire.e_text("a") + bytes([rng.choice([1, 2, 9, 99, 255])]) + b"1234567890",
            lambda: c + wire.e_map({"a": 1})[:-1], lambda: c + wire.e_map({"a": 1}) + b"trailing",
            lambda: c + b"\x3c" + b"\0" * 40, lambda: c + b"\x15" + b"\0" * 3, lambda: c + b"\x1a", lambda: c + b"\x46", lambda: c + b"\x50\1\2"])()
        b = wire.e_frame(body)
        if rng.random() < 0.15: b = struct.pack(">i", rng.choice([-1, -2**31, -5])) + body
        return b, {"cmd": cmd, "map": False, "id": "", "class": "bad"}
    def huge(self):
        rng = self.rng
        b, q = self.good()
        n = rng.choice([len(b) - 4 + rng.randrange(1, 200), 10**8, 2**31 - 1, 2**30, 70000 + len(b)])
        return struct.pack(">i", n) + b[4:], dict(q, **{"class": "wrong"})
    def make(self, kind):
        return {"ok": self.good, "panic": lambda: self.good(True), "bad": self.bad, "huge": self.huge}[kind]()

def norm(b):
    """a map pack, canonically (the order of its entries says nothing)"""
    def n(v):
        if isinstance(v, dict): return {str(k): n(x) for k, x in sorted(v.items(), key=lambda z: str(z[0]))}
        if isinstance(v, (list, tuple)): return [n(x) for x in v]
        return "%s:%r" % (type(v).__name__, v)
    r = wire.Rd(b); p = wire.pack(r)
    if not r.end() or p["p"] != "map": return "not a map"
    return "%08x" % (__import__("zlib").crc32(json.dumps(n(p["m"])).encode()))

def shape(items, blobs):
    r = {"n": len(items), "map": False, "keys": [], "lists": [], "equal": True, "id": ""}
    if blobs or len(items) != 1: return r
    rd = wire.Rd(items[0])
    p = wire.pack(rd)
    if not rd.end(): raise wire.WireError("trailing bytes in an answer")
    if p["p"] == "map":
        ls = {k: len(v) for k, v in p["m"].items() if isinstance(v, (list, tuple))}
        r.update(map=True, keys=sorted(k for k in p["m"] if k not in ls)[:40], lists=sorted(ls)[:40], equal=True, id=norm(items[0]))
        own = [v for k, v in ls.items() if k not in ("configKey",)]
        r["equal"] = len(set(own)) <= 1
    return r

class Session:
    def __init__(self, C, a, rng, hsh, short, reqs):
        self.C, self.a, self.rng, self.short, self.reqs, self.hash = C, a, rng, short, reqs, hsh
        self.ev, self.c, self.pend, self.rest, self.muted = [], None, [], None, False
    def mute(self, what):
        self.muted = True
        self.ev.append({"k": "mute", "what": what})
        raise Mute(what)
    def up(self):
        if self.c: return
        end = time.time() + 25
        while not self.c:
            c = self.C.accept(max(0.01, end - time.time()))
            if not c: self.mute("no connection")
            self.ev.append({"k": "conn"})
            try:
                c.greeting(max(1, end - time.time()))
            except Eof:
                self.ev.append({"k": "eof"}); c.cut(); continue
            except Mute: self.mute("no greeting")
            self.ev.append({"k": "hello", "magic": "%08x" % c.magic, "hash": str(c.hash)})
            self.c, self.pend, self.rest = c, [], None
    def lost(self):
        """the agent closed: what it answered before is still there"""
        try:
            while self.pend and self.pend[0]["class"] in ("good", "bad"): self.one(5)
            if self.c.buf: self.ev.append({"k": "res", "r": {"n": -1, "map": False, "keys": [], "lists": [], "equal": True, "id": "unasked"}})
        except (Eof, Mute): pass
        self.ev.append({"k": "eof"})
        self.c.cut(); self.c = None
    def one(self, timeout=25):
        q = self.pend[0]
        b = q["cmd"] in BLOBS
        items = self.c.response(b, timeout)
        self.ev.append({"k": "res", "r": shape(items, b)})
        self.pend.pop(0)
    def settle(self):
        if not self.c: return
        try:
            while self.pend and self.pend[0]["class"] in ("good", "bad"): self.one()
        except Eof: self.lost(); return
        except Mute: self.mute("no answer")
        if self.pend and self.pend[0]["class"] == "wrong" and not self.rest:
            if self.short:
                if not self.c.eof(25): self.mute("a request that never ends holds the agent")
                self.lost()
            else: self.cut()
    def cut(self):
        if not self.c: return
        how = self.rng.choice(["close", "reset", "down"])
        if how == "down":
            self.C.close()
        self.c.cut(how == "reset"); self.c = None
        self.ev.append({"k": "cut"})
        if how == "down":
            time.sleep(self.rng.choice([0.05, 0.3]))
            self.C.open(self.C.port)
    def send(self, b):
        cuts, gap = [], 0
        r = self.rng.random()
        if r < 0.2: cuts, gap = range(1, min(len(b), 60)), 0.0005
        elif r < 0.5: cuts, gap = [self.rng.randrange(1, max(2, len(b))) for _ in range(3)], 0.002
        try: self.c.send(b, cuts, gap)
        except Eof: self.lost()
    def do(self, s):
        o = s["o"]
        if o == "req":
            if self.c and self.rest:     # the agent was to give up on the other half
                if not self.short: self.do({"o": "rest"}) if self.rng.random() < 0.4 else self.cut()
                elif self.rng.random() < 0.5: self.cut()
                else:
                    if not self.c.eof(25): self.mute("half a request holds the agent")
                    self.lost()
            # what follows a request that promises more than it holds is part of it
            if any(q["class"] == "wrong" for q in self.pend): self.settle()
            # closing a connection discards what is still on its way: at most a few small answers
            if s["k"] in ("bad", "huge") and sum(q.get("bulk", 1) for q in self.pend) > 4: self.settle()
            self.up()
            b, q = self.reqs.make(s["k"])
            at = self.rng.choice([1, 3, 4, 5, len(b) - 1, self.rng.randrange(1, len(b))])
            at = max(1, min(at, len(b) - 1))
            p = dict(q, **{"class": "part" if q["class"] == "good" else "wrong"})
            self.ev.append({"k": "req", "q": dict(p)}); self.pend.append(p)
            if len(b) > 5000 or q["cmd"] in BLOBS or "CONFIGURE" in q["cmd"]: p["bulk"] = 9
            self.rest = (b[at:], q["class"])
            self.send(b[:at])
            if self.rng.random() < 0.2: time.sleep(0.01)
        elif o == "rest":
            if not self.c or not self.rest: self.rest = None; return
            (b, cl), self.rest = self.rest, None
            self.ev.append({"k": "rest", "class": cl}); self.pend[-1]["class"] = cl
            self.send(b)
        elif o == "settle": self.settle()
        elif o == "cut": self.up(); self.cut()
    def guard(self, fn):
        try: fn()
        except wire.WireError as e:
            self.ev.append({"k": "garbage", "what": str(e)}); self.muted = True
        except Second:
            self.ev.append({"k": "conn"}); self.muted = True
        except Mute:
            if not self.muted: raise
    def run(self, script):
        for s in script: self.do(s)
        if self.c and self.rest:
            self.do({"o": "rest"}) if self.rng.random() < 0.5 else self.cut()
        self.settle()
        for _ in range(40):      # and still there
            self.up()
            self.do({"o": "req", "k": "ok"}); self.do({"o": "rest"}); self.settle()
            if self.c and not self.pend: break
        self.ev.append({"k": "end"})
        c = self.C.accept(0.0)
        if c:
            self.ev.append({"k": "conn"})

def run(ctx):
    ctx.build("agent")
    traces, scripts, gen = [], [], threading.Event()
    def models():
        try: scripts.extend(ctx.generate("TcpGen", "TcpGen.cfg", ctx.pick(320, 4000), 90))
        finally: gen.set()
        ctx.model("TcpMC", "TcpMC.cfg", workers=3, expect_actions=["Wait", "Dial", "Hello", "Read", "Moved", "Fault", "Silence", "Work", "Write", "Req", "Rest", "Cut", "Stall", "Move"])
        for v in ("segment", "norecover", "patient", "late"): ctx.refute("TcpMC", "TcpMC_%s.cfg" % v)
        if ctx.thorough: ctx.model("TcpMC", "TcpMC_big.cfg", workers=6, timeout=3000, heap="12g")
    def alive(a, tid):
        r = a.call("seq", ops=[{"o": "start", "c": "x", "p": "", "name": "alive-" + tid, "ip": "1.2.3.4"}, {"o": "end", "c": "x"}])
        n, end = 0, time.time() + 15
        while not n and time.time() < end:
            n = sum(1 for q, p in decode(a.call("ping", take=True)["dg"]) if p["p"] == "xlog")
        a.call("reset")
        if n != 1: raise Violation("after requests on the command channel the agent does not trace any more", {"id": tid, "records": n})
    def worker(k):
        rng = random.Random(ctx.seed * 257 + k)
        short = k in (6, 7)
        C = collector.Collector()
        try:
            conf = {"net_collector_tcp_so_timeout_ms": 400 if short else 60000}
            a = ctx.agent(tcp=C.port, conf=conf, unpriv=True)
            for d in ("binary_dump", "dump"):
                os.makedirs(os.path.join(a.home, d), exist_ok=True)
            open(os.path.join(a.home, "binary_dump", "big.pprof"), "wb").write(os.urandom(1 << 20) * 8)
            open(os.path.join(a.home, "binary_dump", "small.pprof"), "wb").write(b"x" * 299)
            open(os.path.join(a.home, "dump", "x"), "wb").write(b"y" * 5000)
            own(a.home)
            a.call("scale", f=0.05)
            hsh = str(wire.hash_string("/%s/go1" % socket.gethostname()))
            reqs = Reqs(rng, lambda: a.text(dict(a.base, **conf)) + "#%d\n" % rng.randrange(1 << 30))
            gen.wait(300)
            mine = scripts[k::8]
            s = None
            for i, script in enumerate(mine):
                tid = "%s%d-%d" % ("short" if short else "tcp", k, i)
                s2 = Session(C, a, rng, hsh, short, reqs)
                if s and s.c:    # goes on with the connection
                    s2.c = s.c
                    s2.ev = [{"k": "conn"}, {"k": "hello", "magic": "cafe1002", "hash": hsh}]
                s = s2
                try:
                    s.guard(lambda: stall(s, rng) if short and i % 6 == 5 else s.run(script))
                    traces.append({"id": tid, "hash": hsh, "short": short, "ev": s.ev})
                    if s.muted: break
                    if i % 3 == 0: alive(a, tid)
                    else: a.call("ping")
                except Died as d:
                    raise Violation("requests on the command channel end or hold the program: %s" % d.why, {"id": tid, "events": s.ev[-12:], "stderr": d.stderr[-5000:]})
                ctx.count("requests", sum(1 for e in s.ev if e["k"] == "req"))
            a.close()
        finally: C.close()
    def stall(s, rng):
        """a collector which asks and does not read"""
        s.up(); s.settle()
        if s.c: s.cut()
        s.C.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        s.up()
        for _ in range(4):
            b = wire.e_request("OBJECT_DOWNLOAD_HEAP_DUMP", {"fileName": "big.pprof"})
            q = {"cmd": "OBJECT_DOWNLOAD_HEAP_DUMP", "map": True, "id": "", "class": "good"}
            s.ev.append({"k": "req", "q": q}); s.pend.append(q)
            try: s.c.send(b)
            except Eof: break
        s.ev.append({"k": "stall"})
        old = s.c
        s.C.close(); s.C.open(s.C.port)
        c = s.C.accept(25)
        if not c: s.mute("a collector that does not read holds the agent")
        s.ev.append({"k": "eof"}); old.cut()
        s.c, s.pend = None, []
        c.cut()
        s.run([])
        ctx.count("stalls")
    def steady():
        """a connection in use outlives the agent's patience, which is for silence"""
        rng = random.Random(ctx.seed * 31 + 9)
        for round in range(ctx.pick(1, 3)):
            C = collector.Collector()
            try:
                a = ctx.agent(tcp=C.port, conf={"net_collector_tcp_so_timeout_ms": 12000}, unpriv=True)
                a.call("scale", f=0.05)
                s = Session(C, a, rng, str(wire.hash_string("/%s/go1" % socket.gethostname())), False, Reqs(rng, lambda: a.text(dict(a.base, net_collector_tcp_so_timeout_ms=12000))))
                t0 = last = time.time(); gap = 0
                while time.time() - t0 < 16 and (s.c or not s.ev) and not s.muted:
                    for o in ({"o": "req", "k": "ok"}, {"o": "rest"}, {"o": "settle"}):
                        if not s.muted: s.guard(lambda: s.do(o))
                    gap = max(gap, time.time() - last); last = time.time()
                    time.sleep(0.3)
                if not s.muted and s.c: s.ev.append({"k": "end"})
                # (a pause of ours may have tried its patience)
                traces.append({"id": "steady%d" % round, "hash": s.hash, "short": gap > 6, "ev": s.ev})
                a.close()
            finally: C.close()
    parallel([models, steady] + [lambda k=k: worker(k) for k in range(8)], 10)
    n = [0]
    def corrupt(t):
        n[0] += 1
        c = n[0] % 4
        ids = {e["q"]["id"] for e in t["ev"] if e["k"] == "req" and e["q"]["cmd"] == "OBJECT_RESET_CACHE" and e["q"]["class"] != "wrong"}
        rs = [i for i, e in enumerate(t["ev"]) if e["k"] == "res"]
        if not rs or t["short"] or t["ev"][rs[-1]]["r"]["id"] not in ids: return None
        i = rs[-1]
        if c == 0: t["ev"].pop(i)
        elif c == 1: t["ev"].insert(i, t["ev"][i])
        elif c == 2: t["ev"][i]["r"]["n"] = 0
        else: t["ev"].insert(i, {"k": "eof"})
        return t
    ctx.judge("TcpTrace", "TcpTrace.cfg", traces, "command channel", selftest=corrupt)
    ctx.assumptions += ["20 s without the answer due, or without a new connection (the agent's pauses are shortened 20-fold), count as never",
                        "sockets are loopback TCP; segmentation is what separate writes with pauses produce"]
