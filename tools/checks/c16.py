"""C16: views of the running transactions, and what is done about stuck ones."""
import collector
from progs import *
from checks.c01 import contexts

LEVEL = {0: "info", 1: "warn", 2: "error", 3: "fatal"}
DIG = "0123456789abcdefghijklmnopqrstuv"

def number(t):
    """the collector's reading of a transaction's id in base 32"""
    n = 0
    if not re.fullmatch("[xz][0-9a-v]+", t): return "?" + t
    for c in t[1:]: n = n * 32 + DIG.index(c)
    return str(n if t[0] == "x" else -n)

def host(a):
    """an address without its port"""
    m = re.fullmatch(r"\[([^\]]*)\]:\d+", a)
    return m.group(1) if m else a if a.count(":") > 1 else a.split(":")[0]

def conf_text(c):
    return {"trace_activeservice_yellow_time": c["y"], "trace_activeservice_red_time": c["r"], "stuck_service_base_time_ms": c["s"],
            "stuck_service_remove_enabled": str(c["remove"]).lower(), "stuck_service_alert_enabled": str(c["alert"]).lower()}

def random_conf(rng):
    y = rng.choice([0, 1, 100, 1000, 3000, 5000])
    r = rng.choice([y, y + 1, y + 500, 8000, 500])
    return {"y": y, "r": r, "s": rng.choice([y, r, r + 1, 2000, 10000, 3000, 1]), "remove": rng.random() < 0.6, "alert": rng.random() < 0.5}

class Case:
    """one history being recorded"""
    def __init__(self, s, tid, conf):
        self.s, self.a, self.tid, self.conf0, self.conf = s, s.a, tid, conf, conf
        self.items, self.marks, self.txs, self.ctx, self.names, self.n = [], {}, [], {}, {}, 0
        self.ev, self.packs, self.ctxs = [], [], []
    def mark(self):
        """a place in the history"""
        self.n += 1
        m = "m%d" % self.n
        self.a.call("seq", ops=[{"o": "nop", "m": m}])
        return m
    def seq(self, ops):
        self.ctxs += contexts(ops)
        self.a.call("seq", ops=ops)
    def at(self, m, e, k=0): self.marks.setdefault(m, []).append((k, e))
    def configure(self, conf):
        self.conf = conf
        self.s.set(conf)
        self.at(self.mark(), {"k": "conf", "conf": conf})
    # ---------------------------------------------------------- views
    def list_tcp(self, begin=None):
        m = begin or self.mark()
        v = "l" + m
        r = self.s.conn.ask("OBJECT_ACTIVE_SERVICE_LIST")
        self.at(m, {"k": "list", "id": v})
        n = [len(r.get(k, [])) for k in ("txid", "service", "ip", "elapsed", "id", "name")]
        if len(set(n)) > 1: raise Violation("the columns of the active list differ in length: %s" % n, r)
        items = [{"tx": number(t), "name": sv, "ip": ip, "el": int(el)} for t, sv, ip, el in zip(r["txid"], r["service"], r["ip"], r["elapsed"])] if n[0] else []
        e = {"k": "listed", "id": v, "complete": r.get("complete") is True, "full": True, "items": items}
        self.s.ctx.count("lists")
        return e
    def listed(self, e): self.at(self.mark(), e)
    def detail(self, tx, done=True):
        m = self.mark(); v = "d" + m
        r = self.s.conn.ask("OBJECT_THREAD_DETAIL", {"txid": int(tx)})
        self.at(m, {"k": "detail", "id": v})
        found = "Service Txid" in r
        self.at(self.mark(), {"k": "detailed", "id": v, "tx": tx, "found": found, "txt": number(r["Service Txid"]) if found else "",
                              "name": r.get("Service Name", "") if found else "", "el": int(r.get("Service Elapsed", 0)) if found else 0})
        self.s.ctx.count("details")
    def scans(self):
        """lets the agent's own counting run for a while"""
        m = self.mark()
        self.take()
        k = len(self.packs)
        self.a.call("resume"); time.sleep(self.s.rng.choice([0.06, 0.12])); self.a.call("pause", ms=900); time.sleep(0.01)
        self.take()
        m2 = self.mark()
        got = [p for q, p in self.packs[k:] if p["p"] == "perf" and "ActiveSpeed" in p["data"]]
        vs = []
        for p in got:
            v = p["data"]["ActiveSpeed"]
            if not isinstance(v, list) or len(v) != 3: raise Violation("the activity counts of a counter record are not three numbers", p)
            vs.append([int(x) for x in v])
        vs.sort(key=lambda v: -sum(v))      # nothing but the ending of stuck ones happens meanwhile
        # their scans are over before any of what they sent is looked at
        for i, v in enumerate(vs):
            self.at(m, {"k": "scan", "id": "p%s.%d" % (m, i)}, 2 * i)
            self.at(m, {"k": "scanned", "id": "p%s.%d" % (m, i), "n": v}, 2 * i + 1)
        self.s.ctx.count("own_scans", len(vs))
    def take(self):
        ev, packs, errs, _ = collect(self.a, self.a.call("ping", quiesce=True, take=True))
        if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
        self.ev += ev; self.packs += packs
        return ev
    def known(self):
        """ids of the transactions so far"""
        self.take()
        return [e["txid"] for e in self.ev if e.get("txid") and e["o"] in ("start", "starthttp", "gostart", "inherit")]
    def quiet(self, alone=True):
        self.take()
        self.items += self.convert(alone)
        self.items.append({"k": "quiet"})
    # ---------------------------------------------------------- conversion
    def convert(self, alone):
        it, ev = [], sorted(self.ev, key=lambda e: e["q"])
        calls = {e["k"]: e for e in ev if e["o"] == "go"}
        born = lambda tx, i, q, name, ip: (self.txs.append(tx), self.names.__setitem__(name, tx),
            it.append((i, 0, {"k": "born", "tx": tx, "name": name, "ip": ip})), it.append((q, 0, {"k": "started", "tx": tx, "ip": ip})))
        ipof = self.ipof = getattr(self, "ipof", {})
        for e in ev:
            o, c = e["o"], e.get("c")
            if o in ("start", "starthttp") and e.get("txid"):
                self.ctx[c] = e["txid"]
                if e["txid"] not in ipof:
                    name = e["name"] if o == "start" else e["req"]["url"].split("?")[0] + "<" + e["req"]["method"] + ">"
                    ipof[e["txid"]] = host(e["ip"] if o == "start" else e["req"]["addr"])
                    born(e["txid"], e["i"], e["q"], name, ipof[e["txid"]])
            elif o == "inherit" and e.get("txid"):
                self.ctx[c] = e["txid"]
                if e["txid"] not in ipof and self.ctx.get(e["p"]) in ipof:
                    ipof[e["txid"]] = ipof[self.ctx[e["p"]]]
                    born(e["txid"], e["i"], e["q"], e["as"], ipof[e["txid"]])
            elif o == "gostart" and e.get("txid"):
                p = self.ctx.get(calls[c]["c"])
                self.ctx[c] = e["txid"]
                if e["txid"] not in ipof and e["txid"] != p:
                    ipof[e["txid"]] = ipof.get(p, "")
                    born(e["txid"], calls[c]["i"], e["q"], calls[c]["name"], ipof[e["txid"]])
        v = 0
        for e in ev:
            o, tx = e["o"], self.ctx.get(e.get("c"))
            v += 1
            vid = "v%d.%d" % (len(self.items), v)
            if o == "goend" and tx and tx != self.ctx.get(calls[e["c"]]["c"]): it.append((e["q"], 0, {"k": "ask", "tx": tx}))
            elif o in ("end", "endhttp") and tx: it += [(e["i"], 0, {"k": "ask", "tx": tx}), (e["q"], 0, {"k": "gone", "tx": tx, "alone": alone and e["th"] >= 0})]
            elif o == "name" and tx:
                self.names[e["name"]] = tx
                it += [(e["i"], 0, {"k": "name", "tx": tx, "name": e["name"]}), (e["q"], 0, {"k": "named", "tx": tx, "name": e["name"], "alone": alone})]
            elif o == "advance": it += [(e["i"], 0, {"k": "clock", "ms": int(e["ms"])}), (e["q"], 0, {"k": "clocked", "ms": int(e["ms"])})]
            elif o == "active": it += [(e["i"], 0, {"k": "scan", "id": vid}), (e["q"], 0, {"k": "scanned", "id": vid, "n": e["n"]})]
            elif o == "list": it += [(e["i"], 0, {"k": "list", "id": vid}),
                                     (e["q"], 0, {"k": "listed", "id": vid, "complete": True, "full": False, "items": [{"tx": t, "name": "", "ip": "", "el": 0} for t in e["txids"]]})]
            elif o == "nop" and e.get("m") in self.marks:
                for k, x in self.marks.pop(e["m"]): it.append((e["q"], k, x))
        last = it and max(x[0] for x in it) or 0
        for q, p in self.packs:
            if p["p"] == "xlog": it.append((q, 1000, {"k": "xlog", "tx": str(p["txid"]), "err": p["error"] != 0}))
            elif p["p"] == "alert":
                m = re.search(r"elapsed\D{0,3}(\d+)", p["msg"])
                known = [n for n in sorted(self.names, key=len, reverse=True) if n and n in p["msg"]]
                if not known: raise Violation("an alert names none of the transactions: %s" % p["msg"][:300], p)
                it.append((q, 1000, {"k": "alert", "tx": self.names[known[0]], "name": known[0], "el": int(m.group(1)) if m else -1, "level": LEVEL.get(p["level"], "?")}))
        self.ev, self.packs = [], []
        it.sort(key=lambda x: (x[0], x[1]))
        return [x[2] for x in it]
    def trace(self):
        seen = set(self.txs)
        for e in self.items:
            if e["k"] == "xlog" and e["tx"] not in seen: raise Violation("a record of a transaction that was not started: %s" % e["tx"], self.items)
        ok = [e for e in self.items]
        more = sorted({i["tx"] for e in ok if e["k"] == "listed" for i in e["items"]} - seen)
        return {"id": self.tid, "txs": self.txs + more or ["-"], "conf": self.conf0, "ev": ok}
    def over(self):
        """ends what is left"""
        self.a.call("seq", ops=[{"o": "end", "c": c} for c in self.ctxs])
        self.a.call("ping", quiesce=True, take=True)
        self.a.call("reset")

class Session:
    def __init__(self, ctx, k):
        self.ctx, self.k, self.rng = ctx, k, random.Random(ctx.seed * 389 + k)
        self.C = collector.Collector()
        self.conf = {"y": 3000, "r": 8000, "s": 300000, "remove": True, "alert": False}
        self.a = ctx.agent(conf=conf_text(self.conf), tcp=self.C.port)
        self.a.call("scale", f=0.02)
        self.conn = self.C.connect(30)
        if not self.conn: raise CheckError("the agent did not connect")
        self.a.call("pause", ms=900); time.sleep(0.1)
        self.a.call("freezenow")
        self.a.call("ping", quiesce=True, take=True); self.a.call("baseline")
        self.n = 0
    def set(self, conf):
        self.a.call("conf", text=self.a.text(dict(self.a.base, **conf_text(conf))))
    def case(self, kind):
        self.n += 1
        c = random_conf(self.rng)
        self.set(c)
        return Case(self, "%s%d-%d" % (kind, self.k, self.n), c)
    def close(self):
        self.conn.cut(); self.a.close(); self.C.close()

class Namer:
    def __init__(self, rng, tag): self.rng, self.tag, self.n = rng, tag, 0
    def text(self):
        self.n += 1
        return "<%s.%d>%s" % (self.tag, self.n, self.rng.choice(["", "", " x", "é", "x" * 100]))
    def addr(self): return self.rng.choice(["10.1.2.3:8080", "1.2.3.4", "255.255.255.255:80", "[::1]:80", "[fe80::1]:4433", "2001:db8::1", "", "some-host:1"])
    def start(self, c, http=None):
        if http if http is not None else self.rng.random() < 0.4:
            self.n += 1
            return {"o": "starthttp", "c": c, "req": {"method": self.rng.choice(["GET", "POST"]), "url": "/s/%s.%d%s" % (self.tag, self.n, self.rng.choice(["/", "/?a=1"])), "addr": self.addr(), "headers": {}}}
        return {"o": "start", "c": c, "name": self.text(), "ip": self.addr()}

def tick(rng, conf, born, now):
    """a step of the clock, mostly onto an edge"""
    if born and rng.random() < 0.85:
        b = rng.choice(list(born.values())); e = rng.choice([conf["y"], conf["r"], conf["s"]]) + rng.choice([0, 1])
        if b + e > now: return b + e - now
    return rng.choice([1, 1, 10, 999, 1000, conf["s"] + 1])

def generated(s, h):
    """a behaviour of the specification"""
    rng, c = s.rng, s.case("gen")
    nm, born, now, n = Namer(rng, c.tid), {}, 0, 0
    conc = {}
    for o in h:
        k = o["o"]
        if k == "start":
            p = rng.choice(sorted(conc.values())) if conc and rng.random() < 0.15 else None
            n += 1; conc[o["x"]] = "c%d" % n
            if p:
                name = nm.text()
                c.seq([{"o": "inherit", "c": "c%d" % n, "p": p, "as": name}, {"o": "name", "c": "c%d" % n, "name": name}])
            else: c.seq([nm.start("c%d" % n)])
            if rng.random() < 0.2: c.seq([{"o": "stream", "c": "c%d" % n}])
            born[o["x"]] = now
        elif k == "end": c.seq([{"o": rng.choice(["end", "endhttp"]), "c": conc[o["x"]]}]); born.pop(o["x"], None)
        elif k == "tick":
            t = tick(rng, c.conf, born, now); now += t
            c.seq([{"o": "advance", "ms": t}])
        elif k == "scan":
            if rng.random() < 0.25: c.scans()
            else: c.seq([{"o": "active", "c": "-"}])
        elif k == "list":
            if rng.random() < 0.7: c.listed(c.list_tcp())
            else: c.seq([{"o": "list", "c": "-"}])
        if rng.random() < 0.06: c.configure(random_conf(rng))
        if rng.random() < 0.1:
            ids = c.known()
            if ids: c.detail(rng.choice(ids))
        if rng.random() < 0.1: c.quiet()
    if rng.random() < 0.4: c.scans()
    c.listed(c.list_tcp())
    c.quiet()
    t = c.trace(); c.over()
    return t

def free(s):
    """longer histories of everything a program does to its transactions"""
    rng, c = s.rng, s.case("free")
    nm, born, now, live, n = Namer(rng, c.tid), {}, 0, [], 0
    for _ in range(rng.choice([10, 20, 40])):
        x = rng.random()
        if x < 0.25 or not live:
            n += 1; k = "c%d" % n
            c.seq([nm.start(k)]); live.append(k); born[k] = now
        elif x < 0.35:
            k = rng.choice(live); live.remove(k); born.pop(k, None)
            c.seq([{"o": rng.choice(["end", "endhttp"]), "c": k}])
        elif x < 0.42: c.seq([{"o": "name", "c": rng.choice(live), "name": nm.text()}])
        elif x < 0.44: c.seq([{"o": "stream", "c": rng.choice(live)}])
        elif x < 0.46:
            # a service that goes on for another; nobody looks before it has its name
            n += 1; k = "c%d" % n; name = nm.text()
            c.seq([{"o": "inherit", "c": k, "p": rng.choice(live), "as": name}, {"o": "name", "c": k, "name": name}]); live.append(k); born[k] = now
        elif x < 0.49: c.seq([{"o": rng.choice(["err", "errf"]), "c": rng.choice(live), "m": "e"}])
        elif x < 0.57:
            n += 1; k = "k%d" % n
            body = []
            for _ in range(rng.randrange(0, 4)):
                body.append(rng.choice([{"o": "msg", "c": k, "m": "m"}, {"o": "name", "c": k, "name": nm.text()}, {"o": "list", "c": k}, {"o": "active", "c": k}, {"o": "end", "c": k}, {"o": "advance", "ms": rng.choice([1, c.conf["s"], c.conf["s"] + 1])}]))
            now += sum(o.get("ms", 0) for o in body)
            c.seq([{"o": "go", "c": rng.choice(live), "k": k, "name": nm.text(), "body": body}, {"o": "wait", "k": k}])
        elif x < 0.72:
            t = tick(rng, c.conf, born, now); now += t
            c.seq([{"o": "advance", "ms": t}])
        elif x < 0.8: c.seq([{"o": "active", "c": "-"}])
        elif x < 0.84: c.scans()
        elif x < 0.91: c.listed(c.list_tcp())
        elif x < 0.95:
            ids = c.known()
            if ids: c.detail(rng.choice(ids + ["1", "-5", str(rng.getrandbits(62))]) if rng.random() < 0.15 else rng.choice(ids))
        elif x < 0.97: c.configure(random_conf(rng))
        else: c.quiet()
    c.listed(c.list_tcp()); c.quiet()
    t = c.trace(); c.over()
    return t

def crossing(s):
    """starts, ends, renames, views and the clock at the same time"""
    rng, c = s.rng, s.case("par")
    nm = Namer(rng, c.tid)
    live = ["c%d" % (i + 1) for i in range(rng.choice([1, 2, 4]))]
    for k in live:
        c.seq([nm.start(k)])
        if rng.random() < 0.5: c.seq([{"o": "advance", "ms": rng.choice([1, c.conf["y"], c.conf["s"], c.conf["s"] + 1])}])
    clock = rng.random() < 0.35
    n = [0]
    def op():
        n[0] += 1
        k = rng.choice(["end", "end", "active", "active", "list", "name", "err"] + (["advance"] * 2 if clock else ["start", "start", "go"]))
        if k in ("active", "list"): return {"o": k, "c": "-"}
        if k == "advance": return {"o": k, "ms": rng.choice([1, c.conf["y"] + 1, c.conf["s"] + 1])}
        if k == "start": return nm.start("n%d" % n[0])
        if k == "name": return {"o": k, "c": rng.choice(live), "name": nm.text()}
        if k == "go": return {"o": k, "c": rng.choice(live), "k": "k%d" % n[0], "name": nm.text(), "body": [{"o": "nop", "c": "-"}]}
        return {"o": k, "c": rng.choice(live), "m": "e"}
    ths = [[op() for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
    mode = rng.choice(["pct", "pct", "walk", "free"])
    kw = {"pct": {"depth": rng.choice([2, 3, 4]), "len": rng.choice([15, 40, 120])}, "walk": {"stay": rng.choice([0, 128, 240])}}.get(mode, {})
    for t in ths: c.ctxs += contexts(t)
    tcp = rng.random() < 0.4
    got = []
    if tcp:
        m = c.mark()
        th = threading.Thread(target=lambda: got.append(c.list_tcp(m)))
        th.start()
    r0 = c.a.call("par", threads=ths, mode=mode, seed=rng.randrange(1 << 30), **kw)
    if tcp:
        th.join()
        if not got: raise CheckError("no answer to a list")
        c.listed(got[0])
    if r0.get("dead") or r0.get("stalled"): raise Violation("views of the running transactions block the program", {"threads": ths, "result": r0})
    if r0.get("panics"): raise Violation("a call panics: %s" % r0["panics"][0][:200], {"threads": ths, "panics": r0["panics"]})
    s.ctx.count("schedules")
    c.quiet(alone=False)
    # and at rest
    c.seq([{"o": "active", "c": "-"}]); c.listed(c.list_tcp()); c.quiet()
    t = c.trace(); c.over()
    return t

def crowd(s, n, old):
    """more of them than a scan looks at"""
    c = s.case("crowd")
    c.configure({"y": 1000, "r": 3000, "s": 5000, "remove": s.rng.random() < 0.7, "alert": True})
    c.seq([{"o": "start", "c": "c%d" % i, "name": "<%s.%d>" % (c.tid, i), "ip": "1.2.3.4:5"} for i in range(old)])
    c.seq([{"o": "advance", "ms": 5001}])
    c.seq([{"o": "start", "c": "c%d" % i, "name": "<%s.%d>" % (c.tid, i), "ip": "1.2.3.4:5"} for i in range(old, n)])
    c.listed(c.list_tcp())
    c.seq([{"o": "active", "c": "-"}])
    c.quiet()
    c.listed(c.list_tcp()); c.quiet()
    t = c.trace(); c.over()
    return t

def swell(s, n):
    """a few that run on while very many others come and go between two views"""
    c = s.case("swell")
    c.configure({"y": 1000, "r": 3000, "s": 5000, "remove": False, "alert": False})
    stay, nm = s.rng.choice([1, 7, 60]), Namer(s.rng, c.tid)
    for i in range(stay): c.seq([nm.start("c%d" % i)])
    c.seq([{"o": "advance", "ms": 1001}])
    c.quiet()
    # of these the history knows nothing: none of them is there when anybody looks
    passing = ["p%d" % i for i in range(n - stay)]
    for i in range(0, len(passing), 2000): s.a.call("seq", ops=[{"o": "start", "c": p, "name": "passing", "ip": ""} for p in passing[i:i + 2000]])
    for i in range(0, len(passing), 500):
        s.a.call("seq", ops=[{"o": "end", "c": p} for p in passing[i:i + 500]])
        ev, packs, errs, _ = collect(s.a, s.a.call("ping", quiesce=True, take=True))
        if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
        ids = {str(p["txid"]) for q, p in packs if p["p"] == "xlog"} & set(c.ipof)
        if ids: raise Violation("a record of a transaction that is still running: %s" % sorted(ids)[:5])
    c.listed(c.list_tcp())
    c.seq([{"o": "active", "c": "-"}])
    c.detail(s.rng.choice(c.txs))
    c.quiet()
    for i in range(0, stay, 2): c.seq([{"o": "end", "c": "c%d" % i}])
    c.listed(c.list_tcp()); c.quiet()
    t = c.trace(); c.over()
    s.ctx.count("passing", len(passing))
    return t

def run(ctx):
    ctx.build("agent")
    acts = ["Start", "End", "Tick", "Scan", "Visit", "ScanEnd", "ScanRest", "List", "Show", "ListEnd", "ListRest"]
    def models():
        ctx.model("ActiveMC", "ActiveMC.cfg", workers=3, expect_actions=acts)
    def models2():
        for v in ("keep", "limit"): ctx.model("ActiveMC", "ActiveMC_%s.cfg" % v, workers=3)
        for v in ("stale", "strict", "reapslow", "atlimit", "quiet", "first", "cached", "stops"): ctx.refute("ActiveMC", "ActiveMC_%s.cfg" % v)
        if ctx.thorough: ctx.model("ActiveMC", "ActiveMC_big.cfg", workers=6, timeout=3000, heap="12g")
    gens = ctx.generate("ActiveGen", "ActiveGen.cfg", ctx.pick(120, 2500), 120)
    seqs, pars, big = [], [], []
    def worker(k):
        s = Session(ctx, k)
        try:
            for h in gens[k::8]: seqs.append(generated(s, h))
            for _ in range(ctx.pick(8, 250)): seqs.append(free(s))
            for _ in range(ctx.pick(40, 1500)): pars.append(crossing(s))
            if k == 0 or ctx.thorough: big.append(crowd(s, 2300, s.rng.choice([1, 40, 290])))
            if k == 1 or ctx.thorough: big.append(crowd(s, s.rng.choice([1999, 2000, 2001]), 20))
            if k == 2 or ctx.thorough: big.append(swell(s, s.rng.choice([2100, 7000, 9990])) if ctx.thorough else swell(s, 9990))
            if s.a.drops(): raise CheckError("the collector's socket lost datagrams")
        except Died as d:
            if d.agent_fault(): raise Violation("the process ended: %s" % d.stderr[-400:], d.stderr)
            raise
        except (collector.Eof, collector.Mute) as e:
            if s.a.p.poll() is not None: raise CheckError("the driver ended: %s" % s.a.stderr()[-1000:])
            raise Violation("a view of the running transactions is not answered (%s)" % type(e).__name__)
        except wire.WireError as e: raise Violation("the answer to a view cannot be read: %s" % e)
        finally: s.close()
    parallel([models, models2] + [lambda k=k: worker(k) for k in range(8)], 10)
    n = [0]
    def corrupt(t):
        n[0] += 1
        ev = t["ev"]
        def some(f):
            l = [i for i, e in enumerate(ev) if f(e)]
            return l[n[0] * 7 % len(l)] if l else None
        w = n[0] % 7
        if w == 0 or w == 6:
            i = some(lambda e: e["k"] == "listed" and e["full"] and e["items"])
            if i is None: return None
            if w: ev[i]["items"][0]["name"] += "?"
            else: ev[i]["items"][0]["el"] = 1 << 30
        elif w == 1:
            i = some(lambda e: e["k"] == "scanned" )
            if i is None: return None
            ev[i]["n"][0] += 2100
        elif w == 2:
            i = some(lambda e: e["k"] == "alert")
            if i is None: return None
            ev[i]["level"] = {"error": "warn"}.get(ev[i]["level"], "error")
        elif w == 3:
            i = some(lambda e: e["k"] == "xlog")
            if i is None: return None
            del ev[i]
        elif w == 4:
            i = some(lambda e: e["k"] == "listed")
            if i is None: return None
            ev[i]["complete"] = False
        elif w == 5:
            i = some(lambda e: e["k"] == "listed" and e["items"])
            if i is None: return None
            ev[i]["items"].append(dict(ev[i]["items"][0]))
        return t
    ctx.judge("ActiveTrace", "ActiveTrace.cfg", seqs, "histories of running transactions and views of them", selftest=corrupt)
    ctx.judge("ActiveTrace", "ActiveTrace.cfg", pars, "views while transactions start and end", selftest=corrupt)
    ctx.judge("ActiveTrace", "ActiveTrace.cfg", big, "many running transactions", heap="6g")
    ctx.assumptions += ["the clock is the harness's; it stands still between the steps of a history", "services of one history have different names"]
