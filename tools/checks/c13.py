"""C13: tracing never breaks the host program."""
import base64, socket, threading
import wire, collector
from vlib import *
from progs import ADDRS, flat_strings

STRINGS = ["", "x", "plain text", "%s%d%!v(", "\n\r\t\x00\x03", "é한글🙂", {"rep": "long ", "n": 14000}, {"rep": "y", "n": 130000},
           {"b64": base64.b64encode(b"\xff\xfe\x80abc\xc3").decode()}, "*", ",", "a<b>c", "/" * 300, "${x}", "null"]
IPS = ["", ":", "a:b:c", "[::1]:80", "1.2.3", "1.2.3.4.5:1", "256.1.1.1", "-1.0.0.0:1", "localhost:80", "99999999999.1.1.1", "1.2.3.4", "....", " 1.2.3.4",
       {"rep": "1.", "n": 500}, {"b64": base64.b64encode(b"\xff.\x00.1.1").decode()}] + ADDRS
INTS = [0, 1, -1, 7, 2**31 - 1, -2**31, 100000]

class Deco:
    def __init__(self, rng, tag):
        self.rng, self.tag, self.n, self.alias, self.strings = rng, tag, 0, {}, set()
    def s(self):
        return self.rng.choice(STRINGS)
    def m(self):
        self.n += 1
        if self.rng.random() < 0.5: return self.s() if self.rng.random() < 0.6 else {"rep": "m%d " % self.n, "n": self.rng.choice([1, 3, 9000])}
        m = "m-%s-%d" % (self.tag, self.n)
        self.strings.add(m)
        return m
    def req(self, kinds=(2, 1, 1, 1, 8)):
        r = self.rng
        k = r.choices(["nil", "empty", "nilurl", "nilheader", "full"], kinds)[0]
        if k == "nil": return None
        if k == "empty": return {"empty": True}
        q = {"method": self.s() if r.random() < 0.3 else "GET", "url": "/p", "addr": r.choice(IPS), "headers": {}}
        if r.random() < 0.5: q.update(path=self.s(), query=self.s())
        if r.random() < 0.4: q.update(hk=self.s(), hv=self.s())
        if r.random() < 0.3: q["headers"] = {"User-Agent": "ua", "Referer": "ref", "X-Forwarded-For": "not an address"}
        if k == "nilurl": q["nilurl"] = True
        if k == "nilheader": q["nilheader"] = True; q.pop("hk", None)
        return q
    def new(self, k):
        self.n += 1
        v = "%s_%d" % (k, self.n)
        self.alias[k] = v
        return v
    def ref(self, c):
        return self.alias.get(c, "never-" + c)
    def args(self, o):
        r, k = self.rng, o["o"]
        if k == "start": o.update(name=self.s(), ip=r.choice(IPS))
        elif k == "starthttp":
            q = self.req()
            if q is not None: o["req"] = q
        elif k == "endhttp":
            q = self.req()
            if q is not None: o["req"] = q
            if r.random() < 0.6: o["status"] = r.choice([0, 200, 404, -1, 2**31 - 1, 2**40])
        elif k in ("err", "errf", "msg"): o["m"] = self.m()
        elif k == "name": o["name"] = self.s()
        elif k == "hmsg": o.update(m=self.m(), v=r.choice(INTS), t=r.choice(INTS))
        elif k == "pmsg": o.update(m=self.m(), l=r.choice([0, 1, 2, 3, 4, 255]), t=r.choice(INTS), ps=[r.choice(["", "p", "x" * 500, "é"]) for _ in range(r.choice([0, 1, 40]))])
        elif k == "addstep":
            o["of"] = r.choice(["nil", "typednil", "step", "msg", "msg"])
            if o["of"] == "step": o["s"] = r.choice(["s1", "s2", "s3"])
            elif o["of"] == "msg": o.update(m=self.m(), t=r.choice(INTS))
        elif k in ("method", "methodp"):
            o["name"] = self.s()
            if k == "methodp" or r.random() < 0.4: o["params"] = [r.choice(["", "v", 5, None, "!bad", "!badptr", [1, 2], {"a": 1}]) for _ in range(r.choice([0, 1, 3]))]
        elif k in ("api", "apiprop"):
            o.update(name=self.s(), addr=self.s())
            q = self.req((3, 2, 2, 3, 3))
            if k == "apiprop" and q is not None: o["req"] = q
        elif k == "endapi":
            x = r.random()
            if x < 0.3: o["err"] = self.s()
            elif x < 0.4: o["err"] = True
        return o
    def some(self, n, ctxs, ops=("msg", "hmsg", "pmsg", "err", "errf", "name", "end", "endhttp", "method", "api", "endmethod", "endapi", "addstep", "method0", "stream", "isstream", "fallback")):
        r = self.rng
        out = []
        for _ in range(n):
            k = r.choice(ops)
            o = {"o": k, "c": r.choice(ctxs)}
            if k in ("method", "method0", "methodp", "api", "apiprop", "endmethod", "endapi"): o["s"] = r.choice(["s1", "s2", "s3"])
            out.append(self.args(o))
        return out
    def op(self, o):
        r = self.rng
        o = dict(o)
        k = o["o"]
        if "c" in o: o["c"] = self.ref(o["c"])
        if "p" in o: o["p"] = self.ref(o["p"])
        if k == "go":
            o["join"] = r.random() < 0.75
            old = o["k"]
            if o["join"]: o["k"] = self.new(old)
            else:
                self.n += 1; o["k"] = "%s_%d" % (old, self.n)
            o.update(name=self.s(), body=self.some(r.randrange(0, 4), [o["k"], o["c"]]))
            if r.random() < 0.3:
                self.n += 1
                o["body"].append({"o": "go", "c": o["k"], "k": "%s_%d" % (old, self.n), "how": "return", "name": self.s(), "join": True,
                                  "body": self.some(r.randrange(0, 3), ["%s_%d" % (old, self.n)])})
        elif k == "guard":
            o["defer"] = self.some(r.randrange(1, 4), [o["c"], r.choice(list(self.alias.values()) or [o["c"]])],
                                   ("end", "endhttp", "err", "errf", "msg", "endmethod", "endapi", "method0", "name", "end", "endmethod"))
            o["body"] = self.some(r.randrange(0, 3), [o["c"]])
        elif "k" in o: o["k"] = self.new(o["k"])
        return self.args(o)
    def program(self, h):
        out = []
        for o in h:
            out.append(self.op(o))
            # steps are ended in any context, also one that does not know them
            if self.alias and self.rng.random() < 0.3:
                out += self.some(self.rng.choice([1, 1, 4]), sorted(self.alias.values()) + ["never"], ("method", "api", "endmethod", "endmethod", "endapi"))
        return out

def order(ev):
    for e in ev:
        e["at"] = e["i"] if e["o"] in ("msg", "hmsg", "pmsg", "addstep", "err", "errf", "name", "ctx") or "i" in e and e["o"] == "ran" else e["q"]
    ev.sort(key=lambda e: e["at"])
    out = []
    for e in ev:
        e = {k: v for k, v in e.items() if k not in ("i", "q", "at", "us")}
        if "panic" in e: e["panic"] = e["panic"][:1500]
        out.append(e)
    return out

def trace(tag, res, ev, packs=None, strings=()):
    ev = order(ev)
    g = res.get("goruns") or {}
    ev.append({"o": "runs", "blocked": bool(res.get("blocked")), "ks": sorted(g), "ns": [g[k] for k in sorted(g)]})
    if packs is not None:
        byhash = {wire.hash_string(s): s for s in strings}
        ms, ids, ps = set(), [], set()
        for _, p in packs:
            if p["p"] == "profile":
                ps.add(str(p["txid"]))
                for s in p["steps"]:
                    for x in (s.get("text"), byhash.get(s.get("hash"))):
                        if isinstance(x, str) and x.startswith("m-"): ms.add(x)
            elif p["p"] == "xlog": ids.append(str(p["txid"]))
        ev.append({"o": "seen", "ms": sorted(ms)})
        ev.append({"o": "xlogs", "ids": ids, "ps": sorted(ps)})
    return {"id": tag, "ev": ev}

# values of the configuration: any, with buffer sizes within memory
VALUES = ["", "0", "-1", "1", "2", "abc", "1e3", "99999999999999999999", "4294967296", "-2147483649", "2147483648", "true", "false", "yes", " 7 ", ",", "*", "*,*,", ",,a*b",
          "**", "${nowhere}", "a\\tb", "é", "0x10", "1.5", "x" * 2000, "/a*,*b,c", "100", "1000", "NaN"]
SIZES = ("send_queue_size", "profile_step_max_keep_in_memory_count", "profile_step_max_count", "net_udp_packet_max_bytes", "udp")
def randconf(rng, keys, base):
    c = {}
    for k in keys:
        if rng.random() < 0.6:
            v = rng.choice(VALUES)
            try:
                n = int(v)
                if any(k.startswith(s) or "size" in k or "count" in k or "bytes" in k for s in SIZES) and n > 200000: v = "200000"
            except ValueError: pass
            c[k] = v
    if rng.random() < 0.5:
        for k in ("net_collector_ip", "net_collector_udp_port", "net_collector_tcp_port"): c[k] = base[k]
    lines = ["%s=%s" % (k, v) for k, v in c.items()]
    rng.shuffle(lines)
    if rng.random() < 0.2: lines.insert(rng.randrange(len(lines) + 1), rng.choice(["=", "nokey", "a${b=1", "x=${x}", "y=${z", "\\", "#", "k=\\u12"]))
    return "\n".join(lines) + "\n"

class Wild(threading.Thread):
    """a collector that answers the agent's connections with anything"""
    def __init__(self, seed, mode):
        super().__init__(daemon=True)
        self.c, self.rng, self.mode, self.stop = collector.Collector(), random.Random(seed), mode, False
        self.start()
    def run(self):
        while not self.stop:
            try: c = self.c.accept(0.3)
            except (OSError, ValueError, AttributeError): return
            if c is None: continue
            try:
                if self.mode == "cut": c.cut(self.rng.random() < 0.5)
                elif self.mode == "mute": self.keep = getattr(self, "keep", []) + [c]
                else:
                    b = bytes(self.rng.randrange(256) for _ in range(self.rng.randrange(1, 60)))
                    c.send(self.rng.choice([b, wire.e_frame(b), wire.e_request("GET_CONFIGURE_WAS", b), b"\xff" * 8, b"\x7f\xff\xff\xff" + b]))
                    time.sleep(0.02); c.cut()
            except (collector.Eof, OSError): pass
    def end(self):
        self.stop = True
        self.c.close()

def run(ctx):
    ctx.build("agent")
    rng = ctx.rng
    hists = ctx.generate("HostGen", "HostGen.cfg", ctx.pick(700, 6000), 40)
    errs, traces, lock = [], [], threading.Lock()
    def add(t):
        with lock: traces.append(t)
    def dead(d, what, ops=None):
        """the host's process ended, or stopped, under it"""
        if "did not answer" in d.why and not d.agent_fault():
            gs = [g for g in d.stderr.split("\n\n") if "scouterx" in g or "main." in g]
            raise CheckError("%s: %s\n%s" % (what, d.why, "\n\n".join(gs)[:6000]))
        s = d.stderr
        i = max(s.find("panic:"), s.find("fatal error:"))
        if i >= 0 and not d.agent_fault(): raise CheckError("the driver failed: %s\n%s" % (d.why, s[i:i + 3000]))
        raise Violation("%s: the host's process ended: %s %s" % (what, d.why, s[max(i, 0):][:600]), {"stderr": s[-5000:], "program": ops})
    def programs(a, tag, hs, seed, full=False, between=None):
        r = random.Random(seed)
        n = 0
        for i, h in enumerate(hs):
            d = Deco(r, "%s.%d" % (tag, i))
            ops = d.program(h)
            try:
                if between: between(r)
                res = a.call("host", threads=[ops])
                t = a.call("ping", take=True, quiesce=full)
            except Died as x:
                dead(x, tag, ops)
            packs = None
            if full and not res.get("blocked"):
                if not t.get("mark"): raise CheckError("%s: the queue did not flush" % tag)
                packs = decode(t["dg"], [])
            add(trace("%s-%d" % (tag, i), res, t["ev"], packs, d.strings))
            n += len(ops)
            if res.get("blocked"): return n
        return n
    def keys():
        a = ctx.agent()
        try: return sorted({d["k"] for d in a.call("confget")["desc"]})
        finally: a.close()
    allkeys = keys()
    def start(tag, **kw):
        try:
            a = ctx.agent(**kw)
            a.call("ping")
            return a
        except Died as x:
            dead(x, "%s: at the start" % tag)
    def hs(k, n):
        return [hists[(k * 37 + j) % len(hists)] for j in range(n)]
    jobs = []
    def plain(k, conf):
        a = start("plain%d" % k, conf=conf)
        try:
            a.call("pause", ms=900); a.call("scale", f=0.02); time.sleep(0.1)
            a.call("ping", quiesce=True, take=True); a.call("baseline")
            programs(a, "plain%d" % k, hs(k, ctx.pick(25, 150)), ctx.seed * 100 + k, full=True)
        finally: a.close()
    hdr = {"profile_http_header_enabled": "true", "profile_http_querystring_enabled": "true", "trace_http_client_ip_header_key": "X-Forwarded-For"}
    confs = [{"profile_step_max_keep_in_memory_count": 1}, hdr, dict(hdr, profile_http_header_keys="User-Agent, ,X,", profile_step_max_keep_in_memory_count=1),
             {"xlog_sampling_enabled": "true", "xlog_sampling_over_rate_pct": 0, "xlog_discard_service_patterns": "*,a*", "profile_step_max_keep_in_memory_count": 2},
             {"net_udp_packet_max_bytes": 300, "trace_http_client_ip_header_key": "Referer"}]
    for k in range(ctx.pick(5, 25)): jobs.append(lambda k=k: plain(k, confs[k % len(confs)]))
    # nobody at the collector's address, no such address, a collector that misbehaves
    def away(k, conf, tcp=None, what="away"):
        w = Wild(ctx.seed * 10 + k, tcp) if tcp else None
        c = dict(conf)
        if w: c["net_collector_tcp_port"] = w.c.port
        tag = "%s%d" % (what, k)
        a = start(tag, conf=c)
        try:
            a.call("scale", f=0.02)
            programs(a, tag, hs(100 + k, ctx.pick(12, 100)), ctx.seed * 1000 + k)
        finally:
            a.close()
            if w: w.end()
    nowhere = [{"net_collector_udp_port": 1}, {"net_collector_ip": "no.such.host.invalid"}, {"net_collector_ip": "999.1.1.1"}, {"net_collector_ip": ""},
               {"net_collector_ip": "::1"}, {"net_collector_ip": "host with blank"}, {"net_collector_udp_port": 0, "net_collector_tcp_port": 0},
               {"net_collector_udp_port": -1, "net_collector_tcp_port": 70000}, {"net_collector_ip": "127.0.0.1:1"}, {"net_collector_udp_port": "x"}]
    for k, c in enumerate(nowhere): jobs.append(lambda k=k, c=c: away(k, c))
    for k, m in enumerate(["cut", "mute", "garbage"]): jobs.append(lambda k=k, m=m: away(20 + k, {}, m, m))
    # a queue that is full, and nobody takes from it
    def full(k, size):
        a = start("full%d" % k, conf={"send_queue_size": size})
        try:
            a.call("pause", ms=90); time.sleep(0.15)
            programs(a, "full%d" % k, hs(200 + k, ctx.pick(15, 100)), ctx.seed * 3000 + k)
        finally: a.close()
    for k, s in enumerate([1, 2, 40]): jobs.append(lambda k=k, s=s: full(k, s))
    # any values of the configuration, at the start and changed under way
    def anyconf(k):
        r = random.Random(ctx.seed * 7777 + k)
        a0 = {"net_collector_ip": "127.0.0.1", "net_collector_udp_port": 1, "net_collector_tcp_port": 1}
        env = {"VNOISE": "1"}
        if r.random() < 0.3: env.update({r.choice(allkeys): r.choice(VALUES) for _ in range(3)}, WEIRD="a=b=${c")
        home = tempfile.mkdtemp(prefix="home-", dir=ctx.tmp)
        text = randconf(r, allkeys, a0)
        open(os.path.join(home, "agent.conf"), "w").write(text)
        try:
            a = start("config%d (%r)" % (k, text[:1500]), home=home, nofile_conf=True, env=env)
        except Died as x: dead(x, "config%d" % k)
        try:
            a0 = a.base
            a.call("scale", f=0.02)
            now = [text]
            def change(r):
                if r.random() < 0.6:
                    now[0] = randconf(r, allkeys, a0)
                    a.call("conf", text=now[0])
            try: programs(a, "config%d" % k, hs(300 + k, ctx.pick(10, 60)), ctx.seed * 5000 + k, between=change)
            except Violation as v:
                v.what += " with configuration %r" % now[0][:1500]
                raise
        finally: a.close()
    for k in range(ctx.pick(16, 150)): jobs.append(lambda k=k: anyconf(k))
    # no place for the log
    def nolog(k):
        home = tempfile.mkdtemp(prefix="home-", dir=ctx.tmp)
        f = os.path.join(home, "file"); open(f, "w").write("x")
        a = start("nolog%d: no place for the log file" % k, home=home, env={"SCOUTER_AGENT_HOME": [f + "/below", f][k % 2]})
        try: programs(a, "nolog%d" % k, hs(400 + k, 4), ctx.seed * 9000 + k)
        finally: a.close()
    for k in range(2): jobs.append(lambda k=k: nolog(k))
    # several threads with the same contexts
    def par(k):
        a = start("threads%d" % k, conf=[{}, {"send_queue_size": 2, "profile_step_max_keep_in_memory_count": 2}][k % 2])
        r = random.Random(ctx.seed * 11000 + k)
        try:
            a.call("pause", ms=900); time.sleep(0.1)
            for i in range(ctx.pick(14, 80)):
                d = Deco(r, "threads%d.%d" % (k, i))
                before = [d.op({"o": "ctx", "k": "c1", "kind": "value"}), d.op({"o": "start", "k": "c2", "c": "c1"}), d.op({"o": "starthttp", "k": "c3", "c": "c1"}),
                          d.op({"o": "start", "k": "c4", "c": "never"}), d.op({"o": "ctx", "k": "c5", "kind": "broken"}), d.op({"o": "end", "c": "c4"}), ]
                shared = [d.ref(x) for x in ("c1", "c2", "c3", "c4", "c5", "never")]
                threads = []
                for t in range(r.choice([2, 3, 4])):
                    ops = d.some(r.randrange(4, 10), shared)
                    for o in ops:
                        if "s" in o: o["s"] = "t%d%s" % (t, o["s"])
                    for _ in range(r.randrange(0, 2)):
                        d.n += 1
                        ops.insert(r.randrange(len(ops)), {"o": "go", "c": r.choice(shared), "k": "g_%d" % d.n, "how": r.choice(["return", "goexit"]), "name": d.s(), "join": False, "body": d.some(2, shared)})
                    threads.append(ops)
                try:
                    res = a.call("host", before=before, threads=threads, mode="", seed=r.randrange(1 << 30))
                    t = a.call("ping", take=True)
                except Died as x: dead(x, "threads", threads)
                ev = t["ev"]
                for e in ev:   # a step made while its transaction may be ending
                    if e["o"] in ("msg", "hmsg", "pmsg", "addstep", "err", "errf"): e.pop("m", None)
                add(trace("threads%d-%d" % (k, i), res, ev))
                if res.get("blocked"): return
        finally: a.close()
    for k in range(ctx.pick(4, 16)): jobs.append(lambda k=k: par(k))
    # panics of the host's own
    def die(k, how, c, opt):
        what = "own panic (%s) in a goroutine traced from %s" % (how, c)
        try: a = start(what, conf={})
        except Died as x: dead(x, what)
        v = "the host's own words %d" % k
        try:
            a.call("scale", f=0.02)
            a.call("die", how=how, ctx=c, v=v, timeout=20, **opt)
            add({"id": "die-%s-%s" % (how, c), "code": 2, "ev": [{"o": "died", "code": -1, "said": False}]})
        except Died as d:
            s = d.stderr
            said = v in s and ("userBlowup" in s or how == "runtime") and "panic" in s
            if how == "runtime": said = said and "assignment to entry in nil map" in s
            if how == "type": said = said and "(main.userPanic)" in s
            if how == "nil": said = said and "panic called with nil argument" in s
            add({"id": "die-%s-%s" % (how, c), "code": 2, "ev": [{"o": "died", "code": a.p.poll() if a.p.poll() is not None else -1, "said": said, "words": s[:300]}]})
        finally: a.close()
    k = 0
    for how in ("string", "error", "type", "runtime", "nil"):
        for c in ("nil", "plain", "traced", "ended"):
            k += 1
            opt = {"calls": k % 2 == 0, "nested": k % 3 == 0}
            if ctx.thorough or c == "traced" or k % 2 == ctx.seed % 2:
                jobs.append(lambda k=k, how=how, c=c, opt=opt: die(k, how, c, opt))
    def models():
        ctx.model("HostMC", "HostMC.cfg", workers=3, expect_actions=["Call", "Look", "New", "Lock", "Work", "Queue", "Launch", "Ret", "Run", "Send", "Stop"])
        ctx.model("HostMC", "HostMC_live.cfg", workers=2, coverage=False)
        for v in ("late", "unguarded", "holds", "waits", "swallows"): ctx.refute("HostMC", "HostMC_%s.cfg" % v)
        if ctx.thorough: ctx.model("HostMC", "HostMC_big.cfg", workers=6, timeout=3000, coverage=False)
    merr = []
    def mt():
        try: models()
        except Exception as e: merr.append(e)
    th = threading.Thread(target=mt); th.start()
    try:
        parallel(jobs, 8)
    except Violation as v:
        ctx.violation(v.what, v.replay)
    th.join()
    if merr: raise merr[0]
    ctx.count("host_calls", sum(len(t["ev"]) for t in traces))
    k = [0]
    def corrupt(t):
        k[0] += 1
        es = [e for e in t["ev"]]
        want = [lambda e: e["o"] == "start" and not e["nil"], lambda e: e["o"] == "guard", lambda e: e["o"] == "runs" and e["ks"], lambda e: e["o"] == "died", lambda e: e["o"] == "starthttp",
                lambda e: e["o"] == "msg" and "panic" not in e]
        for j in range(len(want)):
            w = want[(k[0] + j) % len(want)]
            c = [e for e in es if w(e)]
            if not c: continue
            e = c[k[0] * 7 % len(c)]
            if e["o"] in ("start", "starthttp"): e["nil"] = True
            elif e["o"] == "guard": e["through"] = "no"
            elif e["o"] == "runs": e["ns"][0] += 1
            elif e["o"] == "died": e["code"] = 0
            else: e["panic"] = "x"
            return t
        return None
    ctx.judge("HostTrace", "HostTrace.cfg", traces, "what the host's calls did to it", selftest=corrupt, timeout=900)
    ctx.assumptions += ["buffer sizes of the configuration are within memory", "a call of the API that does not return within 8 s is taken to block",
                        "contexts whose own methods panic may be returned as they are"]
