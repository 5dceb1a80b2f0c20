"""C02: a transaction record says what the traced program did."""
from progs import *

LIMIT = 5000
REAP = "This stuck service currently may running, not finished!"

def host(a):
    a = a.split(":")[0]
    p = a.split(".")
    return a if len(p) == 4 and all(x.isdigit() and int(x) < 256 for x in p) else "0.0.0.0"

def record(p, T):
    ip = ".".join(str(b) for b in p["ip"]) if len(p["ip"]) == 4 else "?" + p["ip"].hex()
    return {"name": T.get(p["service"]), "error": T.get(p["error"]), "status": p["status"], "apis": p["apicount"], "apitime": p["apitime"],
            "xtype": p["xtype"], "ip": ip, "ua": T.get(p["useragent"]), "ref": T.get(p["referer"]), "elapsed": p["elapsed"],
            "text": {"Login": T.get(p["login"]), "Desc": T.get(p["desc"]), "Text1": p["text1"], "Text2": p["text2"], "Text3": p["text3"],
                     "Text4": p["text4"], "Text5": p["text5"]},
            "num": {"Userid": p["userid"], "SqlCount": p["sqlcount"], "SqlTime": p["sqltime"]}}

def hdr(e, key):
    for k, v in ((e.get("req") or {}).get("headers") or {}).items():
        if k.lower() == (key or "").lower(): return v
    return ""

def calls(ev, iphdr):
    """the calls of a program as events of RecTrace, in the order of the log"""
    ctx, seen, gocall = {}, set(), {e["k"]: e for e in ev if e["o"] == "go"}
    for e in ev:
        if e["o"] in ("start", "starthttp", "inherit", "gostart") and e.get("txid"): ctx[e["c"]] = e["txid"]
    out = []
    order = lambda e: e["q"] if e["o"] in ("start", "starthttp", "inherit", "gostart", "goend", "advance") else e["i"]
    for e in sorted(ev, key=order):
        o, x = e["o"], ctx.get(e.get("c"))
        c = None
        if o in ("start", "starthttp"):
            if x and x not in seen:
                seen.add(x)
                if o == "start": c = {"k": "start", "tx": x, "xtype": 1, "name": e["name"], "ip": host(e["ip"]), "hdr": "", "ua": "", "ref": ""}
                else:
                    q = e["req"]; h = hdr(e, iphdr) if iphdr else ""
                    c = {"k": "start", "tx": x, "xtype": 0, "name": q["url"].split("?")[0] + "<" + q["method"] + ">", "ip": host(q["addr"]),
                         "hdr": host(h) if h else "", "ua": hdr(e, "User-Agent"), "ref": hdr(e, "Referer")}
        elif o == "inherit":
            if x: seen.add(x); c = {"k": "inherit", "tx": x, "from": ctx.get(e["p"], "-")}
        elif o == "gostart":
            g = gocall.get(e["c"])
            if x and g and x != ctx.get(g["c"]) and x not in seen:
                seen.add(x); c = {"k": "go", "tx": x, "from": ctx.get(g["c"], "-"), "name": g["name"]}
        elif not x and o not in ("advance", "active"): continue
        elif o == "goend": c = {"k": "goend", "tx": x}
        elif o == "end": c = {"k": "end", "tx": x}
        elif o == "endhttp": c = {"k": "endhttp", "tx": x, "status": e["status"]} if "status" in e else {"k": "end", "tx": x}
        elif o == "active": c = {"k": "reap"}
        elif o in ("api", "apiprop"): c = {"k": "api", "tx": x, "s": e["s"]}
        elif o == "endapi": c = {"k": "endapi", "tx": x, "s": e["s"], "m": e.get("err", "")}
        elif o == "name": c = {"k": "name", "tx": x, "m": e["name"]}
        elif o in ("err", "errf"): c = {"k": o, "tx": x, "m": e["m"]}
        elif o == "set": c = {"k": "set", "tx": x, "f": e["f"], "v": e["v"], "n": e["n"]}
        elif o == "advance": c = {"k": "clock", "ms": int(e["ms"])}
        if c: out.append((order(e), e["th"], c))
    return out

def trace(tid, ev, packs, T, iphdr, conc=None, removes=True):
    """conc = (first, last): log positions between which the threads ran together on the same transactions"""
    items = calls(ev, iphdr)
    xl = [(q, {"k": "xlog", "tx": str(p["txid"]), "r": record(p, T)}) for q, p in packs if p["p"] == "xlog"]
    out = []
    if conc:
        th = {}
        for q, t, c in items:
            if conc[0] <= q <= conc[1]: th.setdefault(t, []).append(c)
        seq = [(q, c) for q, t, c in items if not conc[0] <= q <= conc[1]] + [(conc[1], {"k": "conc", "th": list(th.values())})]
        xl = [(max(q, conc[1] + 0.5), x) for q, x in xl]
    else:
        seq = [(q, c) for q, t, c in items]
    out = [c for q, c in sorted(seq + xl, key=lambda z: z[0])]
    out.append({"k": "quiet"})
    return {"id": tid, "limit": LIMIT, "removes": removes, "all": True, "ev": out}

CONFS = [("plain", {}, None), ("header", {"trace_http_client_ip_header_key": "X-Forwarded-For"}, "X-Forwarded-For"),
         ("small", {"profile_step_max_keep_in_memory_count": 3, "profile_http_header_enabled": "true", "trace_http_client_ip_header_key": "x-real-IP"}, "X-Real-Ip"),
         ("profiles", {"profile_http_header_enabled": "true", "profile_http_header_keys": "User-Agent, Referer", "profile_http_querystring_enabled": "true",
                       "xlog_sampling_enabled": "true", "xlog_sampling_only_profile": "true"}, None)]
NUL = "\0"

def threads_own(rng, d):
    """every thread its own transactions"""
    ths = []
    for t in range(rng.choice([2, 3])):
        c, ops = "t%d" % t, []
        ops.append(d.op({"o": rng.choice(["start", "starthttp"]), "c": c}))
        st = []
        for i in range(rng.randrange(3, 9)):
            o = rng.choice(["err", "errf", "name", "set", "apiprop", "endapi", "msg", "go"])
            if o == "endapi":
                if st: ops.append(d.op({"o": o, "c": c, "s": st.pop()}))
            elif o == "apiprop":
                s = "s%d.%d" % (t, i); st.append(s); ops.append(d.op({"o": rng.choice(["api", o]), "c": c, "s": s}))
            elif o == "go":
                k = "k%d.%d" % (t, i)
                ops.append({"o": "go", "c": c, "k": k, "name": d.text("go"), "body": [d.op({"o": rng.choice(["name", "err", "set"]), "c": k})]})
            else: ops.append(d.op({"o": o, "c": c}))
        ops.append(d.op({"o": rng.choice(["end", "endhttp"]), "c": c}))
        ths.append(ops)
    return [], ths, False

def threads_same(rng, d):
    """several threads use one transaction"""
    pre = [d.op({"o": rng.choice(["start", "starthttp"]), "c": "c"})]
    if rng.random() < 0.2: pre.append(d.op({"o": "errf", "c": "c"}))
    ths, n, begun = [], rng.choice([2, 2, 3]), {}
    for i in range(rng.choice([0, 2, 3, 4])):       # calls that take time, and end while the threads run
        s = "b%d" % i
        pre += [d.op({"o": "api", "c": "c", "s": s}), d.op({"o": "advance"})]
        begun.setdefault(rng.randrange(n), []).append(s)
    for t in range(n):
        ops, st = [], begun.get(t, [])
        for i in range(rng.randrange(1, 4)):
            o = rng.choice(["err", "api", "api", "endapi", "endapi", "errf" if rng.random() < 0.2 else "err"])
            if o == "endapi":
                if st: ops.append(d.op({"o": o, "c": "c", "s": st.pop()}))
            elif o == "api":
                s = "s%d.%d" % (t, i); st.append(s); ops.append(d.op({"o": o, "c": "c", "s": s}))
            else: ops.append(d.op({"o": o, "c": "c"}))
        for s in st: ops.append(d.op({"o": "endapi", "c": "c", "s": s}))
        ths.append(ops)
    return pre, ths, True

def run(ctx):
    ctx.build("agent")
    gens, traces = [], []
    gens.extend(ctx.generate("ProgGen", "ProgGen_rec.cfg", ctx.pick(240, 4000), 26))
    gens.extend(ctx.generate("ProgGen", "ProgGen_any.cfg", ctx.pick(120, 2000), 40))
    def worker(k):
        rng = random.Random(ctx.seed * 37 + k)
        name, conf, iphdr = CONFS[k % len(CONFS)]
        a = start_agent(ctx, conf=dict(conf, stuck_service_base_time_ms=LIMIT))
        a.call("freezenow"); a.call("advance", ms=400000)
        T = Texts(); T.learn([REAP])
        def close(ev):
            cs = {e["c"] for e in ev if e["o"] in ("start", "starthttp", "inherit")} | {e["k"] for e in ev if e["o"] == "go"}
            a.call("seq", ops=[{"o": "end", "c": c} for c in sorted(cs)] + [{"o": "advance", "ms": 20000}])
            a.call("ping", quiesce=True, take=True)
        def learn(ops):
            s = set(); flat_strings(ops, s); T.learn(s)
        for i, h in enumerate(gens[k::8]):
            d = Decor(rng, "%d.%d" % (k, i), iphdr=iphdr, blank=True)
            ops = d.program(h)
            if rng.random() < 0.7:
                for c in sorted({o["c"] for o in ops if o["o"] in ("start", "starthttp", "inherit")}):
                    if rng.random() < 0.8: ops.append(d.op({"o": rng.choice(["end", "endhttp"]), "c": c}))
            learn(ops)
            for o in ops:
                if o["o"] == "starthttp": T.learn([o["req"]["url"].split("?")[0] + "<" + o["req"]["method"] + ">"])
            ev, packs, errs, r = run_program(a, ops)
            if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
            traces.append(trace("%s-%d-%d" % (name, k, i), ev, packs, T, iphdr))
            close(ev)
        for i in range(ctx.pick(90, 2000)):
            d = Decor(rng, "p%d.%d" % (k, i), iphdr=iphdr, plain=True)
            pre, ths, same = (threads_own if rng.random() < 0.5 else threads_same)(rng, d)
            learn([pre, ths])
            for o in pre + sum(ths, []):
                if o["o"] == "starthttp": T.learn([o["req"]["url"].split("?")[0] + "<" + o["req"]["method"] + ">"])
            a.call("reset"); a.call("seq", ops=pre)
            mode = rng.choice(["pct", "pct", "walk", "free"])
            kw = {"pct": {"depth": rng.choice([2, 3, 4]), "len": rng.choice([40, 120, 400])}, "walk": {"stay": rng.choice([0, 128, 240])}}.get(mode, {})
            a.call("seq", ops=[{"o": "nop"}])
            r0 = a.call("par", threads=ths, mode=mode, seed=rng.randrange(1 << 30), **kw)
            if r0.get("dead") or r0.get("stalled"):
                raise Violation("concurrent operations block each other", {"pre": pre, "threads": ths, "result": r0})
            a.call("seq", ops=[{"o": "nop"}] + ([d.op({"o": "end", "c": "c"})] if same else []))
            ev, packs, errs, r = collect(a, a.call("ping", quiesce=True, take=True))
            if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
            nops = [e["q"] for e in ev if e["o"] == "nop"]
            traces.append(trace("%s-par-%d-%d-%s" % (name, k, i, mode), ev, packs, T, iphdr, conc=(nops[0], nops[1]) if same else None))
            ctx.count("schedules")
            close(ev)
        a.close()
    def models():
        ctx.model("RecordMC", "RecordMC.cfg", workers=2, expect_actions=["Start", "Fork", "Err", "Force", "Name", "Done", "Status", "Tick"])
        if ctx.thorough: ctx.model("RecordMC", "RecordMC_big.cfg", workers=6, timeout=3000, heap="12g")
    parallel([models] + [lambda k=k: worker(k) for k in range(8)], 9)
    n = [0]
    def corrupt(t):
        n[0] += 1
        for e in t["ev"]:
            if e["k"] == "xlog":
                f = ["name", "error", "status", "apis", "apitime", "xtype", "ip", "ua", "ref", "elapsed"][n[0] % 10]
                e["r"][f] = e["r"][f] + 1 if isinstance(e["r"][f], int) else e["r"][f] + "!"
                if not any(x.get("tx") == e["tx"] and x["k"] in ("inherit", "go") for x in t["ev"]): return t
        return None
    ctx.judge("RecTrace", "RecTrace.cfg", traces, "records", selftest=corrupt)
    ctx.assumptions += ["the clock is frozen during a program and advanced by it, so that elapsed times are exact",
                        "two threads that set the same field of one transaction at the same time are not exercised, except errors and outgoing calls"]
