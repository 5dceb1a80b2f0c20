"""C03: transaction identity and causality."""
import re, socket as _s
import collections
from progs import *

def xid(t):
    """an id in the collector's text form -> decimal text"""
    if re.fullmatch(r"x(0|[1-9a-v][0-9a-v]*)", t): v = int(t[1:], 32)
    elif re.fullmatch(r"z[1-9a-v][0-9a-v]*", t): v = -int(t[1:], 32)
    elif re.fullmatch(r"\d", t): v = int(t)
    else: return "?" + t
    return str(v) if -2**63 <= v < 2**63 else "?" + t

def trace(tid, ev, packs, T, obj):
    ctx, seen, gos = {}, set(), {e["k"]: e for e in ev if e["o"] == "go"}
    for e in ev:
        if e["o"] in ("start", "starthttp", "inherit", "gostart") and e.get("txid"): ctx[e["c"]] = e["txid"]
    ended, sid, items, owner = {}, {}, [], {}
    for e in sorted(ev, key=lambda e: e.get("q")):
        o, x = e["o"], ctx.get(e.get("c"))
        q = e["q"]
        if o in ("start", "starthttp"):
            of = ctx.get(e.get("p")) if "p" in e else None
            if of: items.append((q, {"k": "alias", "tx": x or "-", "of": of}))
            else: items.append((q, {"k": "start", "tx": e.get("txid", "0"), "gxid": e.get("gxid", "0"), "caller": e.get("caller", "0")}))
        elif o == "inherit": items.append((q, {"k": "inherit", "tx": e.get("txid", "0"), "from": ctx.get(e["p"], "-"), "gxid": e.get("gxid"), "caller": e.get("caller")}))
        elif o == "gostart":
            g = gos[e["c"]]; par = ctx.get(g["c"])
            if par: items.append((q, {"k": "go", "tx": e.get("txid", "0"), "from": par, "gxid": e.get("gxid", "0"), "caller": e.get("caller", "0"), "name": g["name"]}))
        elif o in ("api", "apiprop") and x and not e["nil"]:
            c = {"k": "call", "tx": x, "id": e["stxid"]}
            sid[e["s"]] = e["stxid"]
            if "hdr" in e:
                H = {k.lower(): v for k, v in e["hdr"].items()}
                c["hdr"] = {f: xid(H.get("x-scouter-" + f, "")) for f in ("gxid", "caller", "callee")}
                c["hdr"]["obj"] = H.get("x-scouter-caller-obj", "")
            items.append((q, c))
        elif o == "endapi" and x and e["s"] in sid: items.append((q, {"k": "calldone", "tx": x, "id": sid[e["s"]]}))
        elif o in ("end", "endhttp") and x: items.append((e["i"], {"k": "end", "tx": x}))
    prof = set()
    for q, p in packs:
        if p["p"] == "xlog":
            items.append((q, {"k": "xlog", "tx": str(p["txid"]), "gxid": str(p["gxid"]), "caller": str(p["caller"]), "obj": str(p["objhash"])}))
            ended[str(p["txid"])] = 1
        elif p["p"] == "profile":
            refs = [{"k": "async", "id": str(s["txid"]), "name": T.get(s["hash"])} if s["type"] == 14 else {"k": "call", "id": str(s["txid"])}
                    for s in p["steps"] if s["type"] in (6, 14)]
            items.append((float("inf"), {"k": "profile", "tx": str(p["txid"]), "refs": refs})); prof.add(str(p["txid"]))
    out = [c for q, c in sorted(items, key=lambda z: z[0])]
    out.append({"k": "quiet", "ended": sorted(set(ended) & prof)})
    return {"id": tid, "obj": obj, "ev": out}

def par_program(rng, d):
    pre = [d.op({"o": rng.choice(["start", "starthttp"]), "c": "c"}), d.op({"o": "start", "c": "d"})]
    ths, k = [], 0
    for t in range(rng.choice([2, 3])):
        ops, st = [], []
        for i in range(rng.randrange(1, 4)):
            k += 1
            c = rng.choice(["c", "c", "d"])
            o = rng.choice(["go", "apiprop", "start", "endapi"])
            if o == "go": ops += [{"o": "go", "c": c, "k": "k%d" % k, "name": d.text("go"), "body": [d.op({"o": "apiprop", "c": "k%d" % k, "s": "b%d" % k})] if rng.random() < 0.5 else []}]
            elif o == "apiprop":
                st.append((c, "s%d" % k)); ops.append(d.op({"o": o, "c": c, "s": "s%d" % k}))
            elif o == "start": ops.append(d.op({"o": rng.choice(["start", "starthttp"]), "c": "n%d" % k}))
            elif st: c, s = st.pop(); ops.append(d.op({"o": "endapi", "c": c, "s": s}))
        ths.append(ops)
    return pre, ths

CONFS = [{}, {"profile_step_max_keep_in_memory_count": 2, "profile_step_max_count": 3}, {"obj_name": "другой"},
         {"xlog_sampling_enabled": "true", "xlog_sampling_only_profile": "true", "xlog_sampling_step1_rate_pct": 100}]

def run(ctx):
    ctx.build("agent")
    gens, traces = ctx.generate("ProgGen", "ProgGen_ident.cfg", ctx.pick(240, 4000), 26), []
    def worker(k):
        rng = random.Random(ctx.seed * 41 + k)
        conf = CONFS[k % len(CONFS)]
        number = lambda n: wire.hash_string("/" + _s.gethostname() + "/" + n)
        if k > 3:       # object hashes of either sign
            n = conf.get("obj_name", "app")
            conf = dict(conf, obj_name=next(x for x in (n + str(i) for i in range(1000)) if (number(x) < 0) == (k % 4 < 3)))
        a = start_agent(ctx, conf=conf)
        obj = str(number(conf.get("obj_name", "go1")))
        a.call("freezenow")
        T = Texts()
        def learn(x):
            s = set(); flat_strings(x, s); T.learn(s)
        def spoil(ops):
            for o in ops:
                if o["o"] == "apiprop" and o.get("req") and rng.random() < 0.25:   # a request that passes through, or is sent again
                    o["req"] = dict(o["req"], nilheader=False, headers={"X-Scouter-Gxid": "x1", "X-Scouter-Caller": "x2", "X-Scouter-Callee": "x3", "X-Scouter-Caller-Obj": "4"})
                spoil(o.get("body", []))
        def close(ev):
            cs = {e["c"] for e in ev if e["o"] in ("start", "starthttp", "inherit")} | {e["k"] for e in ev if e["o"] == "go"}
            a.call("seq", ops=[{"o": "end", "c": c} for c in sorted(cs)])
            a.call("ping", quiesce=True, take=True)
        for i, h in enumerate(gens[k::8]):
            d = Decor(rng, "%d.%d" % (k, i))
            ops = d.program(h); spoil(ops); learn(ops)
            # every transaction ends, so that all profiles are delivered
            gone = [o["c"] for o in ops if o["o"] in ("start", "starthttp", "inherit")]
            ops += [{"o": "end", "c": c} for c in gone]
            ev, packs, errs, r = run_program(a, ops)
            if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
            traces.append(trace("p%d-%d" % (k, i), ev, packs, T, obj))
            close(ev)
        for i in range(ctx.pick(80, 2000)):
            d = Decor(rng, "q%d.%d" % (k, i), plain=True)
            pre, ths = par_program(rng, d)
            for t in ths: spoil(t)
            learn([pre, ths])
            a.call("reset"); a.call("seq", ops=pre)
            mode = rng.choice(["pct", "pct", "walk", "free"])
            kw = {"pct": {"depth": rng.choice([2, 3, 4]), "len": rng.choice([40, 120, 400])}, "walk": {"stay": rng.choice([0, 128, 240])}}.get(mode, {})
            r0 = a.call("par", threads=ths, mode=mode, seed=rng.randrange(1 << 30), **kw)
            if r0.get("dead") or r0.get("stalled"):
                raise Violation("concurrent operations block each other", {"pre": pre, "threads": ths, "result": r0})
            a.call("seq", ops=[{"o": "wait", "k": o["k"]} for t in ths for o in t if o["o"] == "go"] +
                   [{"o": "end", "c": o["c"]} for o in pre + sum(ths, []) if o["o"] in ("start", "starthttp")])
            ev, packs, errs, r = collect(a, a.call("ping", quiesce=True, take=True))
            if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
            traces.append(trace("par%d-%d-%s" % (k, i, mode), ev, packs, T, obj))
            ctx.count("schedules")
            close(ev)
        a.close()
    def processes():
        """processes started in the same second: their clocks start at most milliseconds apart"""
        base = (int(time.time()) * 1000 + 100) * 1000000
        n = ctx.pick(8, 24)
        ags = [ctx.agent(env={"VCLOCK_NS": str(base + d)}, conf={"profile_step_max_keep_in_memory_count": 8})
               for d in [0, 1000, 2000, 37000, 1000000, 1001000, 400000000, 850000000, *[3000 * (i + 1) for i in range(n - 8)]]]
        ev = []
        for i, a in enumerate(ags):
            r = a.call("ids", threads=8, n=ctx.pick(60, 400))
            ev.append({"k": "drawn", "ids": r["ids"]})
            ctx.count("ids_drawn", len(r["ids"]))
        traces.append({"id": "processes", "obj": "-", "ev": ev})
        # a history long enough to show ids from a smaller range
        # (of those drawn only once, a few stand for the others: the rest cannot make a difference)
        drawn = [a.call("ids", threads=8, n=ctx.pick(20000, 100000))["ids"] for a in ags[:2]]
        times = collections.Counter(x for d in drawn for x in d)
        ev = [{"k": "drawn", "ids": d[:100] + [x for x in d[100:] if times[x] > 1]} for d in drawn]
        ctx.count("ids_drawn", sum(len(d) for d in drawn))
        traces.append({"id": "many", "obj": "-", "ev": ev})
        for a in ags: a.close()
    def models():
        ctx.model("Ident", "IdentMC.cfg", workers=2, expect_actions=["Start", "Chain", "Call"])
        if ctx.thorough: ctx.model("Ident", "IdentMC_big.cfg", workers=4, timeout=2400)
    parallel([models, processes] + [lambda k=k: worker(k) for k in range(8)], 10)
    n = [0]
    def corrupt(t):
        n[0] += 1
        for e in t["ev"]:
            w = ["call", "xlog", "go", "profile", "inherit"][n[0] % 5]
            if e["k"] == w and (w != "call" or "hdr" in e) and (w != "profile" or e["refs"]):
                if w == "call": e["hdr"][["gxid", "caller", "callee"][n[0] // 5 % 3]] = "5"
                elif w == "profile":
                    if not (e["tx"] in t["ev"][-1]["ended"]): return None
                    e["refs"].pop()
                else: e["gxid"] = "5"
                return t
        return None
    ctx.judge("IdentTrace", "IdentTrace.cfg", traces, "identities", selftest=corrupt)
    ctx.assumptions += ["ids are 63-bit random numbers: 'never reused' is checked on the ids drawn, not proved",
                        "processes started in the same second are simulated with clocks set microseconds to milliseconds apart"]
