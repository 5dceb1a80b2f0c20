"""C17: the agent follows its configuration: to which collectors, and as whom."""
import select, struct
from progs import *

HOST = socket.gethostname()
SCALE, PERIOD = 0.05, 100       # of the agent's sleeps; ms between heartbeats then
LIMIT = 20                      # s within which it has to come to rest

class Sock:
    """a UDP port or a TCP listener of a collector; the port stays its own while it is down"""
    def __init__(self, proto, ip, port=0):
        self.proto, self.ip, self.s, self.re = proto, ip, None, None
        self.keep = self.make()
        self.keep.bind((ip, port)); self.port = self.keep.getsockname()[1]
        if proto == "u": self.keep.connect((ip, 9))
        self.up()
    def make(self):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM if self.proto == "u" else socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
        if self.proto == "t": s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        return s
    def label(self): return {"p": self.proto, "ip": self.ip, "port": str(self.port)}
    def up(self, backlog=16):
        self.s = self.make()
        if self.proto == "u": self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
        self.s.bind((self.ip, self.port))
        if self.proto == "t": self.s.listen(backlog)
        self.re = wire.Reassembler()
    def down(self):
        self.s.close(); self.s = None
    def close(self):
        if self.s: self.s.close()
        self.keep.close()

class Line:
    """a command connection at a collector"""
    n = 0
    def __init__(self, s, at):
        Line.n += 1
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s, self.at, self.id, self.buf, self.hash, self.asked, self.last, self.served = s, at, "k%d" % Line.n, b"", None, 0, 0, False
    def read(self):
        """False at its end"""
        try: d = self.s.recv(1 << 16, socket.MSG_DONTWAIT)
        except BlockingIOError: return True
        except OSError: return False
        self.buf += d
        return bool(d)

class Session:
    def __init__(self, ctx, k):
        self.ctx, self.k, self.rng, self.n = ctx, k, random.Random(ctx.seed * 523 + k), 0
        a, at = Sock("u", "127.0.0.1"), Sock("t", "127.0.0.1")
        # C differs from A in the host only
        self.cols = {"A": (a, at), "B": (Sock("u", "127.0.0.1"), Sock("t", "127.0.0.1")), "C": (Sock("u", "127.0.0.2", a.port), Sock("t", "127.0.0.2", at.port))}
        self.socks = [s for p in self.cols.values() for s in p]
        self.lines, self.ev, self.told, self.hash, self.odd, self.gone = [], [], set(), {}, [], False
        self.beat = self.probe = False
        self.impatient = k % 4 == 3
        self.quietly = 0
        self.want = self.conf("A", "s%d" % k)
        wrong = k % 4 == 2
        if wrong: self.want = self.nowhere(self.want, self.rng.choice(["ip", "70000"]))
        self.a = ctx.agent(conf=self.settings(self.want), udp=False, cwd=None)
        self.a.call("scale", f=SCALE)
        self.mtime = 1600000000
        self.learn(self.want)
        self.begin("start")
        self.lossy = wrong
        if wrong:
            self.pump(None, 0.2)
            self.change(self.conf("A", "s%d" % k), how="refresh")
        self.start = self.end()
        self.a.call("pause", ms=900); self.pump(None, 0.3)
        self.a.call("baseline")
        self.a.call("resume")
    # ------------------------------------------------------ configurations
    def conf(self, col, name, type=None, mix=None, max=60000):
        u, t = self.cols[col][0], self.cols[mix or col][1]
        return {"name": "/%s/%s" % (HOST, name), "type": type or self.rng.choice(["golang", "go-b", "go-c"]), "max": max,
                "udp": {"p": "u", "ip": u.ip, "port": str(u.port)}, "tcp": {"p": "t", "ip": t.ip, "port": str(t.port)}}
    def nowhere(self, c, how):
        c = json.loads(json.dumps(c))
        if how == "ip": c["udp"]["ip"] = c["tcp"]["ip"] = "[::"
        else: c["udp"]["port"] = c["tcp"]["port"] = how
        return c
    def settings(self, c):
        r = {"net_collector_ip": c["udp"]["ip"], "net_collector_udp_port": c["udp"]["port"], "net_collector_tcp_port": c["tcp"]["port"],
             "obj_name": c["name"].split("/", 2)[2], "obj_type": c["type"], "udp_max_bytes": c["max"]}
        if r["obj_type"] == "golang" and self.rng.random() < 0.5: del r["obj_type"]
        if self.impatient: r["net_collector_tcp_so_timeout_ms"] = 300
        return r
    def learn(self, c): self.hash[c["name"]] = str(wire.hash_string(c["name"]))
    def change(self, c, how=None):
        self.learn(c)
        self.pump(None, 0)
        # an announcement may be lost when the collector changes as well
        if not self.calm or c["udp"] != self.want["udp"] or c["max"] != self.want["max"] or not self.isup(self.want["udp"]): self.lossy = True
        self.calm = False
        self.ev.append({"k": "conf", "conf": c})
        self.want, self.beat, self.probe = c, False, False
        for l in self.lines: l.served = False
        if self.impatient: self.quietly = time.time() + 0.8
        text = self.a.text(self.settings(c))
        how = how or self.rng.choice(["poll", "poll", "refresh", "tcp"])
        if how == "tcp":
            l = next((l for l in self.lines if l.hash is not None), None)
            if l and self.pump(lambda: l not in self.lines or not l.asked, 5) and l in self.lines:
                self.ask(l, wire.e_request("SET_CONFIGURE_WAS", {"setConfig": text}))
                self.pump(lambda: not l.asked or l not in self.lines, 5)
                if not l.asked: return
        self.mtime += 10
        p = self.a.confpath + ".new"
        with open(p, "w") as f: f.write(text)
        os.utime(p, (self.mtime, self.mtime))
        os.rename(p, self.a.confpath)
        if how == "refresh": self.a.call("refresh", n=1)
    # ------------------------------------------------------ what arrives
    def at(self, s): return s.label()
    def datagram(self, s, b):
        for enc in s.re.feed(b):
            r = wire.Rd(enc); p = wire.pack(r)
            if not r.end(): raise wire.WireError("trailing bytes after pack")
            at = self.at(s); here = s.label() == self.want["udp"]
            if p["p"] == "object":
                self.ev.append({"k": "beat", "at": at, "hash": str(p["objhash"]), "name": p["objname"], "type": p["objtype"]})
                self.beats += 1
                if here and p["objname"] == self.want["name"] and p["objtype"] == self.want["type"]: self.beat = True
            elif p["p"] == "text" and p["type"] == "zverif":
                self.ev.append({"k": "probe", "at": at}); self.seen.add(p["text"])
                if here: self.probe = True
            elif p["p"] == "text" and p["type"] == "object":
                self.ev.append({"k": "text", "at": at, "hash": str(p["hash"]), "name": p["text"]}); self.told.add(p["text"])
            elif p["p"] == "perf": self.ev.append({"k": "rec", "at": at, "hash": self.hash.get(p["obj"], "?"), "type": ""})
            elif p["p"] in ("xlog", "profile"): self.ev.append({"k": "rec", "at": at, "hash": str(p["objhash"]), "type": ""})
            elif p["p"] == "alert": self.ev.append({"k": "rec", "at": at, "hash": str(p["objhash"]), "type": p["objtype"]})
            else: self.ev.append({"k": "any", "at": at})
    def drain(self, s):
        while s.s and s.proto == "u":
            try: b = s.s.recv(70000, socket.MSG_DONTWAIT)
            except BlockingIOError: return
            self.datagram(s, b)
        if s.re.errors: raise wire.WireError(s.re.errors[0])
    def ask(self, l, req):
        try: l.s.sendall(req)
        except OSError: return
        l.asked += 1; l.last = time.time()
    def hear(self, l):
        """bytes of a connection"""
        open = l.read()
        if l.hash is None and len(l.buf) >= 8:
            magic, h = struct.unpack(">Ii", l.buf[:8]); l.buf = l.buf[8:]
            if magic != 0xcafe1002: raise Violation("a connection begins with %x" % magic)
            # the others first: theirs may have ended before this one was made
            for o in list(self.lines):
                if o is not l and o.hash is not None: self.hear(o)
            l.hash = str(h)
            self.ev.append({"k": "conn", "id": l.id, "at": l.at, "hash": l.hash})
        while l.hash is not None and l.buf:
            if l.buf[0] == 4:
                l.buf = l.buf[1:]; l.asked -= 1; l.served = True
                self.ev.append({"k": "served", "id": l.id})
            elif l.buf[0] == 3:
                if len(l.buf) < 5: break
                n = struct.unpack(">i", l.buf[1:5])[0]
                if len(l.buf) < 5 + n: break
                l.buf = l.buf[5 + n:]
            else: raise wire.WireError("flag %d in a response" % l.buf[0])
        if not open and l in self.lines:
            self.lines.remove(l); l.s.close()
            if l.hash is not None: self.ev.append({"k": "close", "id": l.id})
    beats, seen, dummies, calm, lossy = 0, set(), (), True, False
    def pump(self, cond, timeout):
        end = time.time() + timeout
        while True:
            l = [s.s for s in self.socks if s.s and not getattr(s, "held", False)] + [x.s for x in self.lines]
            r = set(select.select(l, [], [], 0 if timeout == 0 else 0.01)[0])
            for x in list(self.lines):
                if x.s in r and x in self.lines: self.hear(x)
            for s in self.socks:
                if s.s not in r or s.s is None: continue
                if s.proto == "u": self.drain(s)
                else:
                    c, peer = s.s.accept()
                    if peer in self.dummies: c.close(); continue
                    x = Line(c, s.label()); self.lines.append(x); self.hear(x)
            now = time.time()
            for x in self.lines:
                if x.hash is not None and not x.asked and now - x.last > 0.05 and (not self.impatient or now > self.quietly): self.ask(x, wire.e_request("KEEP_ALIVE", {}))
            if cond and cond(): return True
            if now >= end: return False
            if self.a.p.poll() is not None: raise Died("driver ended (exit %s)" % self.a.p.poll(), self.a.stderr())
    def isup(self, label): return any(s.s and s.label() == label for s in self.socks)
    def mine(self):
        """the connection that there should be"""
        return next((l for l in self.lines if l.at == self.want["tcp"] and l.hash == str(wire.hash_string(self.want["name"])) and l.served), None)
    # ------------------------------------------------------ faults
    def cut(self, l, reset=False):
        if l not in self.lines: return
        self.lines.remove(l)
        if reset: l.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        l.s.close()
        if l.hash is not None: self.ev.append({"k": "cut", "id": l.id})
    def cuts(self):
        self.pump(None, 0)
        for l in list(self.lines): self.cut(l, self.rng.random() < 0.3)
    def down(self, s):
        if not s.s: return
        self.pump(None, 0)
        if s.proto == "t":
            for l in list(self.lines):
                if l.at == s.label(): self.cut(l, self.rng.random() < 0.3)
        else: self.drain(s)
        s.down()
        self.calm = False
        if s.proto == "u": self.lossy = True
        self.ev.append({"k": "down", "at": s.label()})
        if s.label() == self.want["udp"]: self.beat = self.probe = False
    def up(self, s):
        if s.s: return
        self.ev.append({"k": "up", "at": s.label()})
        s.up()
    # ------------------------------------------------------ at rest
    def arrived(self):
        w = self.want
        u, t = self.isup(w["udp"]), self.isup(w["tcp"])
        return (not u or self.beat and self.probe) and (not t or self.mine() is not None) and \
            all(l.hash is not None and l.at == w["tcp"] and l.hash == self.hash[w["name"]] for l in self.lines)
    def mark(self):
        self.np = getattr(self, "np", 0) + 1
        m = "p%d-%d" % (self.k, self.np)
        self.a.call("seq", ops=[{"o": "pack", "k": "zverif", "h": self.np, "m": m}])
        return m
    def rest(self):
        end, ok = time.time() + LIMIT, False
        known = lambda: self.lossy or self.want["name"] in self.told or not self.isup(self.want["udp"])
        patience = time.time() + 8
        while time.time() < end and not ok:
            self.mark()
            if not self.pump(self.arrived, 0.3): continue
            if time.time() < patience and not known(): self.pump(known, 0.3); continue
            self.a.call("pause", ms=900)
            self.a.call("ping", quiesce=True, nomark=True)
            m = self.mark()
            self.pump(lambda: m in self.seen, 2 if self.isup(self.want["udp"]) else 0.1)
            for s in self.socks: self.drain(s)
            self.pump(None, 0)
            ok = self.arrived()
            if not ok: self.a.call("resume")
        self.ev.append({"k": "rest"})
        self.calm, self.lossy = True, False
        self.told.add(self.want["name"])
        self.a.call("resume")
        self.ctx.count("rests")
        if not ok: self.gone = True
    def watch(self):
        self.pump(None, 0)
        self.ev.append({"k": "watch"}); t, n = time.time(), self.beats
        self.pump(lambda: self.beats >= n + 3, LIMIT)
        for s in self.socks: self.drain(s)
        self.ev.append({"k": "watched", "ms": int((time.time() - t) * 1000) + 1, "want": 3})
    # ------------------------------------------------------ histories
    def begin(self, kind):
        self.n += 1
        self.ev = []
        self.first, self.told0 = self.want, sorted(self.told)
        self.up0 = [s.label() for s in self.socks if s.s]
        self.tid = "%s%d-%d" % (kind, self.k, self.n)
        for l in self.lines:
            if l.hash is not None: self.ev.append({"k": "conn", "id": l.id, "at": l.at, "hash": l.hash}); l.served = False
        self.beat = self.probe = False
    def end(self):
        for s in self.socks: self.up(s)
        self.rest()
        names = {self.first["name"]} | {e["conf"]["name"] for e in self.ev if e["k"] == "conf"}
        return {"id": self.tid, "hash": {n: self.hash[n] for n in names}, "first": self.first, "told": [t for t in self.told0 if t in names],
                "up": self.up0, "impatient": self.impatient, "ev": self.ev}
    def work(self):
        r = self.rng
        ops = []
        for _ in range(r.randrange(1, 4)):
            ops += r.choice([[{"o": "start", "c": "c", "name": "w", "ip": "1.2.3.4:5"}, {"o": "msg", "c": "c", "m": "x"}, {"o": "end", "c": "c"}],
                             [{"o": "alert", "l": r.randrange(4), "t": "t", "m": "m"}], [{"o": "direct", "k": "zverif", "h": 0, "m": "d"}]])
        self.a.call("seq", ops=ops)
        self.a.call("reset")
    def idle(self):
        if self.rng.random() < 0.4: self.work()
        self.pump(None, self.rng.choice([0, 0, 0.01, 0.05, 0.1, 0.3]))
    def close(self):
        for l in self.lines: l.s.close()
        self.a.close()
        for s in self.socks: s.close()

def generated(s, h):
    """a behaviour of the specification"""
    rng = s.rng
    s.begin("gen")
    tag = "%d.%d" % (s.k, s.n)
    old = s.want["name"].split("/", 2)[2]
    names = {"m": "m" + tag, "n": rng.choice(["n" + tag, old]), "o": "o/" + tag}
    for o in h:
        if s.gone: break
        k = o["o"]
        if k == "change":
            c = s.conf(o["col"], names[o["name"]], max=s.want["max"])
            if rng.random() < 0.5: c["type"] = s.want["type"]
            s.change(c)
        elif k in ("down", "up"):
            for x in rng.choice([s.cols[o["col"]], s.cols[o["col"]], s.cols[o["col"]][:1], s.cols[o["col"]][1:]]): (s.down if k == "down" else s.up)(x)
        elif k == "cut": s.cuts()
        elif k == "rest": s.rest()
        s.idle()
    return s.end()

def free(s):
    """one thing of it changes at a time, or it changes twice quickly, or to what cannot be reached"""
    rng = s.rng
    s.begin("free")
    tag = "%d.%d" % (s.k, s.n)
    for i in range(rng.choice([2, 4, 6])):
        if s.gone: break
        w = json.loads(json.dumps(s.want))
        x = rng.random()
        if x < 0.12: w["type"] = rng.choice(["t%s-%d" % (tag, i), "golang"])
        elif x < 0.27: w["name"] = "/%s/%s-%d" % (HOST, tag, i)
        elif x < 0.35: w["max"] = rng.choice([60000, 1000, 200, 9000])
        elif x < 0.7:
            # another host, another port of one kind, or all of it
            col = rng.choice("ABC"); mix = rng.choice([col, {"A": "B", "B": "A"}.get(col, col)])
            c = s.conf(col, "x", mix=mix); w["udp"], w["tcp"] = c["udp"], c["tcp"]
            if rng.random() < 0.3: w["name"] = "/%s/%s-%d" % (HOST, tag, i)
        elif x < 0.8:
            s.change(s.nowhere(w, rng.choice(["ip", "70000", "-1"])))
            s.idle()
            if rng.random() < 0.4: s.rest()
        elif x < 0.86: s.cuts(); s.idle(); continue
        elif x < 0.92:
            if rng.random() < 0.5: s.rest()
            s.watch(); continue
        s.change(w)
        if rng.random() < 0.35: s.pump(None, rng.choice([0, 0.02, 0.2, 0.4]))
        else:
            s.idle()
            if rng.random() < 0.6: s.rest()
    if not s.gone and s.want["udp"]["port"] not in [str(x.port) for x in s.socks] or s.want["udp"]["ip"] == "[::":
        s.change(s.conf(rng.choice("ABC"), "b" + tag))
    return s.end()

def held(s):
    """the configuration changes while the agent waits for a connection to be made"""
    rng = s.rng
    s.begin("held")
    tag = "%d.%d" % (s.k, s.n)
    col = next((c for c, p in s.cols.items() if p[1].label() == s.want["tcp"]), None)
    if col is None or s.cols[col][0].label() != s.want["udp"]:
        s.change(s.conf("A", "h" + tag)); col = "A"; s.rest()
    t = s.cols[col][1]
    # its queue of connections is full: whoever connects waits
    t.s.listen(0)
    t.held = True
    ds = []
    for _ in range(4):
        d = socket.socket(); d.setblocking(False)
        d.bind((t.ip if t.ip == "127.0.0.2" else "127.0.0.1", 0)); ds.append(d)
        try: d.connect((t.ip, t.port))
        except BlockingIOError: pass
        time.sleep(0.005)
    s.dummies = {d.getsockname() for d in ds}
    s.cuts()
    s.pump(None, 0.4)
    other = rng.choice([c for c in "ABC" if c != col])
    same = rng.random() < 0.3
    s.change(s.conf(col if same else other, "i" + tag if same or rng.random() < 0.5 else "h" + tag), how="refresh")
    s.pump(None, rng.choice([0.02, 0.2]))
    t.held = False
    t.s.listen(64)
    s.pump(None, 0.05)
    for d in ds: d.close()
    s.pump(None, 1.5)
    s.dummies = ()
    s.ctx.count("held_connections")
    return s.end()

def starved(s):
    """the configuration changes while no descriptor can be opened"""
    rng = s.rng
    s.begin("starved")
    tag = "%d.%d" % (s.k, s.n)
    if rng.random() < 0.5: s.rest()
    s.a.call("pause", ms=900)
    w = s.conf(rng.choice("ABC"), "n" + tag, mix=rng.choice([None, None, "A", "B"]))
    if rng.random() < 0.3: w["name"] = s.want["name"]
    if w["tcp"]["ip"] != w["udp"]["ip"]: w["tcp"] = s.conf("C", "x")["tcp"]
    s.change(w, how="refresh")
    s.a.call("nofile", n=0)
    s.ev.append({"k": "fault"})
    s.lossy, s.calm = True, False
    s.a.call("resume")
    if rng.random() < 0.3: s.work()
    s.pump(None, rng.choice([0.1, 0.2, 0.4]))
    s.a.call("nofile")
    s.ctx.count("starved")
    return s.end()

def outage(s):
    """nobody is there for long"""
    rng = s.rng
    s.begin("outage")
    tag = "%d.%d" % (s.k, s.n)
    if rng.random() < 0.5: s.rest()
    both = [x for x in s.socks if x.label() in (s.want["udp"], s.want["tcp"])]
    tcp = [x for x in both if x.proto == "t"]
    for x in rng.choice([both, tcp]): s.down(x)
    for _ in range(rng.choice([1, 2])):
        s.pump(None, rng.choice([1, 2]))
        if rng.random() < 0.3: s.change(dict(s.want, name="/%s/out%s.%d" % (HOST, tag, rng.randrange(1000))))
    s.ctx.count("outages")
    return s.end()

def run(ctx):
    ctx.build("agent")
    acts = ["Change", "Down", "Up", "Cut", "Reload", "ReloadFails", "Take", "Hand", "Write", "Wake", "Dial", "Greet", "Leave"]
    def models(): ctx.model("FollowMC", "FollowMC.cfg", workers=3, expect_actions=acts)
    def models2():
        for v in ("unannounced", "keepsclient", "leftopen", "hashonce", "givesup", "late", "colonly", "twice", "once"): ctx.refute("FollowMC", "FollowMC_%s.cfg" % v)
        if ctx.thorough: ctx.model("FollowMC", "FollowMC_big.cfg", workers=6, timeout=3000, heap="12g")
    gens = ctx.generate("FollowGen", "FollowGen.cfg", ctx.pick(400, 6000), 100)
    ctx.rng.shuffle(gens)
    trs, lock = [], threading.Lock()
    stop = time.time() + ctx.pick(75, 1500)
    def worker(k):
        s = None
        try:
            s = Session(ctx, k)
            mine, n = gens[k::8], 0
            with lock: trs.append(s.start)
            while time.time() < stop and not s.gone and n < len(mine) * 3:
                t = held(s) if n % 9 == 4 else starved(s) if n % 9 == 7 else outage(s) if n % 13 == 6 else generated(s, mine[n % len(mine)]) if n % 2 == 0 else free(s)
                n += 1
                with lock: trs.append(t)
        except Died as d:
            if d.agent_fault(): raise Violation("the process ended: %s" % d.stderr[-400:], d.stderr)
            raise
        except wire.WireError as e: raise Violation("what the agent sends cannot be read: %s" % e)
        finally:
            if s: s.close()
    parallel([models, models2] + [lambda k=k: worker(k) for k in range(8)], 10)
    n = [0]
    def corrupt(t):
        n[0] += 1
        ev = t["ev"]
        def some(f):
            l = [i for i, e in enumerate(ev) if f(e)]
            return l[n[0] * 7 % len(l)] if l else None
        w = n[0] % 6
        if w == 0:
            i = some(lambda e: e["k"] == "beat")
            if i is None: return None
            ev[i]["name"] = "/x/y"
        elif w == 1:
            i = some(lambda e: e["k"] == "rec")
            if i is None: return None
            ev[i]["hash"] = "12"
        elif w == 2:
            i = some(lambda e: e["k"] == "conn")
            if i is None: return None
            ev.insert(i + 1, dict(ev[i], id="other"))
        elif w == 3:
            i = max(j for j, e in enumerate(ev) if e["k"] == "rest")
            last = max([-1] + [j for j, e in enumerate(ev[:i]) if e["k"] == "conf"])
            if last < 0: return None
            ev[last:i] = [e for e in ev[last:i] if e["k"] != "beat"]
        elif w == 4:
            ev.append({"k": "beat", "at": {"p": "u", "ip": "127.0.0.9", "port": "1"}, "hash": t["hash"][t["first"]["name"]], "name": t["first"]["name"], "type": t["first"]["type"]})
        elif w == 5:
            i = some(lambda e: e["k"] == "conn")
            if i is None: return None
            ev[i]["hash"] = "7"
        return t
    ctx.judge("FollowTrace", "FollowTrace.cfg", trs, "histories of changing configurations", selftest=corrupt, heap="4g")
    ctx.assumptions += ["sleeps of the agent are shortened to a twentieth; its deadlines are not",
                        "the agent is given %d s to come to rest" % LIMIT, "datagrams over the loopback interface are not lost while their socket is open"]
