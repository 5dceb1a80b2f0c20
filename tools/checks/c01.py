"""C01: every started transaction completes exactly once."""
from progs import *

LIMIT = 5000

def trace(tid, ev, packs, quiet, keepall, removes):
    """log and packs -> trace of TxnTrace"""
    items, txs, ctx, gocall = [], [], {}, {}
    def new(tx, i, q, frm=None):
        txs.append(tx)
        items.append((i, {"k": "born", "tx": tx, **({"from": frm} if frm else {})}))
        items.append((q, {"k": "started", "tx": tx}))
    calls = {e["k"]: e for e in ev if e["o"] == "go"}
    gostart = {e["c"]: e for e in ev if e["o"] == "gostart"}
    # contexts of chained goroutines are known before their bodies run
    for e in ev:
        if e["o"] in ("start", "starthttp", "inherit") and e.get("txid"):
            ctx[e["c"]] = e["txid"]
    for c, e in gostart.items():
        if e.get("txid"): ctx[c] = e["txid"]
    seen = set()
    for e in sorted(ev, key=lambda e: e.get("i", e["q"])):
        o = e["o"]
        if o in ("start", "starthttp", "inherit"):
            tx = e.get("txid")
            if tx and tx not in seen:
                seen.add(tx)
                new(tx, e["i"], e["q"], ctx.get(e.get("p")) if o == "inherit" else None)
        elif o == "gostart":
            tx, call = e.get("txid"), calls.get(e["c"])
            parent = ctx.get(call["c"]) if call else None
            if tx and tx not in seen and tx != parent:
                seen.add(tx)
                new(tx, call["i"], e["q"])
        elif o == "goend":
            tx, call = ctx.get(e["c"]), calls.get(e["c"])
            if tx and tx != ctx.get(call["c"]):
                items.append((e["q"], {"k": "ask", "tx": tx}))
            elif tx:    # the goroutine of an untraced or same context ends that one too
                items.append((e["q"], {"k": "ask", "tx": tx}))
        elif o in ("end", "endhttp") and ctx.get(e["c"]):
            items.append((e["i"], {"k": "ask", "tx": ctx[e["c"]]}))
            items.append((e["q"], {"k": "asked", "tx": ctx[e["c"]]}))
        elif (o in ("err", "errf") or (o == "endapi" and e.get("err"))) and ctx.get(e["c"]):
            items.append((e["i"], {"k": "errcall", "tx": ctx[e["c"]]}))
            items.append((e["q"], {"k": "errret", "tx": ctx[e["c"]]}))
        elif o == "advance":
            items.append((e["q"], {"k": "clock", "ms": int(e["ms"])}))
        elif o == "active":
            items.append((e["i"], {"k": "reap", "th": e["th"]}))
            items.append((e["q"], {"k": "reaped", "th": e["th"]}))
        elif o == "list":
            items.append((e["i"], {"k": "list", "th": e["th"]}))
            items.append((e["q"], {"k": "listed", "th": e["th"], "set": e["txids"]}))
    for q, p in packs:
        if p["p"] == "xlog":
            items.append((q, {"k": "xlog", "tx": str(p["txid"]), "err": p["error"] != 0}))
    items.sort(key=lambda x: x[0])
    out = [x[1] for x in items]
    n = round(quiet["tps"] * 300)
    out.append({"k": "quiet", "set": quiet["set"], "count": n, "errs": round(quiet["err"] * n / 100.0)})
    return {"id": tid, "txs": txs or ["-"], "limit": LIMIT, "keepall": keepall, "removes": removes, "ev": out}

def observe(a, ctxs):
    """the state after everything settled; then everything left over is ended"""
    a.call("seq", ops=[{"o": "list", "c": "bg"}, {"o": "meter", "n": 300}])
    ev = a.call("ping", take=True)["ev"]
    l = [e for e in ev if e["o"] == "list"][0]; m = [e for e in ev if e["o"] == "meter"][0]
    a.call("seq", ops=[{"o": "end", "c": c} for c in ctxs] + [{"o": "advance", "ms": 400000}])
    a.call("ping", quiesce=True, take=True)
    return {"set": l["txids"], "tps": m["tps"], "err": m["err"]}

def contexts(ops):
    r = []
    for o in ops:
        if o["o"] in ("start", "starthttp", "inherit"): r.append(o["c"])
        if o["o"] == "go":
            r.append(o["k"]); r += contexts(o.get("body", []))
    return r

def par_program(rng, d):
    """a prefix that starts transactions, then threads that use and end them together"""
    n = rng.choice([1, 1, 2, 3])
    pre = []
    for i in range(n):
        c = "c%d" % (i + 1)
        if i and rng.random() < 0.25: pre.append({"o": "inherit", "c": c, "p": "c1"})
        else: pre.append(d.op({"o": rng.choice(["start", "starthttp"]), "c": c}))
        if rng.random() < 0.3: pre.append(d.op({"o": "err", "c": c}))
    if rng.random() < 0.5: pre.append({"o": "advance", "ms": rng.choice([LIMIT, LIMIT + 1, 2 * LIMIT])})
    if rng.random() < 0.3: pre.append(d.op({"o": "start", "c": "c7"}))
    cs = ["c%d" % (i + 1) for i in range(n)]
    k = [0]
    def op():
        c = rng.choice(cs)
        o = rng.choices(["end", "endhttp", "err", "errf", "list", "active", "msg", "go", "start", "nested"], [8, 3, 2, 1, 2, 3, 1, 1, 1, 1])[0]
        k[0] += 1
        if o in ("list", "active"): return {"o": o, "c": c}
        if o == "go": return {"o": "go", "c": c, "k": "k%d" % k[0], "name": d.text("go"), "body": [d.op({"o": rng.choice(["msg", "end", "err"]), "c": "k%d" % k[0]})]}
        if o == "start": return d.op({"o": "start", "c": "n%d" % k[0]})
        if o == "nested": return d.op({"o": "start", "c": "a%d" % k[0], "p": c})
        return d.op({"o": o, "c": c})
    threads = [[op() for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
    if rng.random() < 0.6: threads[0].append(d.op({"o": "end", "c": cs[0]})); threads[1].append(d.op({"o": "end", "c": cs[0]}))
    return pre, threads

CONFS = [
    ("plain", {"stuck_service_base_time_ms": LIMIT}, True, True),
    ("dropped", {"stuck_service_base_time_ms": LIMIT, "xlog_sampling_enabled": "true", "xlog_sampling_step1_rate_pct": 0,
                 "xlog_sampling_step2_rate_pct": 0, "xlog_sampling_step3_rate_pct": 0, "xlog_sampling_over_rate_pct": 0}, False, True),
    ("keepstuck", {"stuck_service_base_time_ms": LIMIT, "stuck_service_remove_enabled": "false", "profile_step_max_keep_in_memory_count": 3}, True, False),
    ("half", {"stuck_service_base_time_ms": LIMIT, "xlog_sampling_enabled": "true", "xlog_sampling_step1_rate_pct": 50,
              "xlog_sampling_step2_rate_pct": 50, "xlog_sampling_step3_rate_pct": 50, "xlog_sampling_over_rate_pct": 50}, False, True),
]

def run(ctx):
    ctx.build("agent")
    def models():
        ctx.model("Txn", "TxnMC.cfg", workers=2, expect_actions=["Start", "MarkError", "Age", "Ask", "Scan", "ScanNext", "Claim", "Close", "Leave", "Decide", "Make", "Meter", "Send"])
        ctx.model("Txn", "TxnMC_reaper.cfg", workers=1)
        ctx.model("Txn", "TxnMC_live.cfg", workers=1)
        ctx.refute("Txn", "TxnMC_noclaim.cfg")
        if ctx.thorough:
            ctx.model("Txn", "TxnMC_big.cfg", workers=6, timeout=3000, heap="12g")
    gens = []
    def gen():
        gens.extend(ctx.generate("ProgGen", "ProgGen_end.cfg", ctx.pick(160, 3000), 30))
    traces = []
    def worker(k):
        rng = random.Random(ctx.seed * 31 + k)
        name, conf, keepall, removes = CONFS[k % len(CONFS)]
        a = start_agent(ctx, conf=conf)
        a.call("freezenow"); a.call("advance", ms=400000)
        mine = gens[k::8]
        for i, h in enumerate(mine):
            d = Decor(rng, "%d.%d" % (k, i))
            ops = d.program(h)
            for o in list(ops):
                if o["o"] == "active" and rng.random() < 0.5:
                    ops.insert(ops.index(o), {"o": "advance", "ms": rng.choice([LIMIT, LIMIT + 1, 1])})
            ev, packs, errs, r = run_program(a, ops)
            if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
            traces.append(trace("%s-%d-%d" % (name, k, i), ev, packs, observe(a, contexts(ops)), keepall, removes))
        n = ctx.pick(110, 2500)
        for i in range(n):
            d = Decor(rng, "p%d.%d" % (k, i), plain=True)
            pre, threads = par_program(rng, d)
            a.call("reset")
            a.call("seq", ops=pre)
            mode = rng.choice(["pct", "pct", "walk", "free"])
            kw = {"pct": {"depth": rng.choice([2, 3, 4]), "len": rng.choice([40, 120, 400])}, "walk": {"stay": rng.choice([0, 128, 240])}}.get(mode, {})
            r0 = a.call("par", threads=threads, mode=mode, seed=rng.randrange(1 << 30), **kw)
            if r0.get("dead") or r0.get("stalled"):
                raise Violation("concurrent operations block each other", {"pre": pre, "threads": threads, "result": r0})
            r = a.call("ping", quiesce=True, take=True)
            ev, packs, errs, r = collect(a, r)
            if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
            t = trace("%s-par-%d-%d" % (name, k, i), ev, packs, observe(a, contexts(pre) + [c for th in threads for c in contexts(th)]), keepall, removes)
            t["mode"] = mode
            traces.append(t)
            ctx.count("schedules")
        a.close()
    gen()
    parallel([models] + [lambda k=k: worker(k) for k in range(8)], 9)
    def corrupt(t):
        for i, e in enumerate(t["ev"]):
            if e["k"] == "xlog":
                t["ev"].insert(i, dict(e)); return t      # a second record
        if t["ev"][-1]["count"]:
            t["ev"][-1]["count"] -= 1; return t
        return None
    ctx.judge("TxnTrace", "TxnTrace.cfg", traces, "transaction histories", selftest=corrupt)
    ctx.assumptions += ["the clock is frozen during a program and advanced by it; background tasks of the agent are held",
                        "an end counts as over when its call has returned; a chained goroutine's end when the agent is idle"]
