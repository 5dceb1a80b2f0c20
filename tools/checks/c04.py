"""C04: a profile delivers each completed step exactly once, correctly numbered."""
import re
from progs import *

AUTO = -999999
def S(ty, text="", start=-1, elapsed=0, v=0, params="", txid="", err="", addr=""):
    return {"ty": ty, "text": text, "start": start, "elapsed": elapsed, "v": v, "params": params, "txid": txid, "err": err, "addr": addr}

def observed(s, T):
    t = s["type"]
    if t == 3: r = S("msg", re.sub(r"^goroutine:\d+$", "goroutine:#", s["text"]))
    elif t == 9: r = S("hmsg", T.get(s["hash"]), elapsed=s["time"], v=s["value"])
    elif t == 17: r = S("pmsg", T.get(s["hash"]), elapsed=s["elapsed"], v=s["level"], params=s["params"])
    elif t == 1: r = S("method", T.get(s["hash"]), elapsed=s["elapsed"])
    elif t == 6: r = S("api", T.get(s["hash"]), elapsed=s["elapsed"], txid=str(s["txid"]), err=T.get(s["error"]), addr=s.get("addr", ""))
    elif t == 14: r = S("async", T.get(s["hash"]), elapsed=s["elapsed"], v=s["threaded"], txid=str(s["txid"]))
    else: r = S("?%d" % t)
    r["start"] = s["start"]
    return {"s": r, "i": s["index"], "p": s["parent"]}

def add(s): return {"p": "add", "s": s}
def show(p): return "<nil>" if p is None else str(p)

def prims(e, heads):
    """what a call does to the profile of its transaction"""
    o = e["o"]
    if o in ("msg",): return [add(S("msg", e["m"]))]
    if o == "addstep": return [add(S("msg", e["m"], start=e["t"]))]
    if o == "hmsg": return [add(S("hmsg", e["m"], elapsed=e["t"], v=e["v"]))]
    if o == "pmsg": return [add(S("pmsg", e["m"], elapsed=e["t"], v=e["l"], params="".join(p + "\x03" for p in e["ps"])))]
    if o == "err": return [add(S("pmsg", e["m"], v=3))]
    if o in ("method", "method0", "methodp"):
        return [add(S("msg", "param: " + show(p))) for p in e.get("params", []) if p is not None] + [{"p": "push", "id": e["s"]}]
    if o == "endmethod": return [{"p": "pop", "id": e["s"], "s": S("method", e["_name"], elapsed=AUTO)}]
    if o in ("api", "apiprop"): return [{"p": "push", "id": e["s"]}]
    if o == "endapi": return [{"p": "pop", "id": e["s"], "s": S("api", e["_name"], elapsed=AUTO, txid=e["_txid"], err=e.get("err", ""), addr=e["_addr"])}]
    if o in ("end", "endhttp"): return [{"p": "close"}]
    return []

def traces_of(tid, ev, packs, T, keep, mx, heads, flush=()):
    """one trace per transaction of the program"""
    ctx, gos, opened = {}, {e["k"]: e for e in ev if e["o"] == "go"}, {}
    for e in ev:
        if e["o"] in ("start", "starthttp", "inherit", "gostart") and e.get("txid"): ctx[e["c"]] = e["txid"]
        if e["o"] in ("method", "method0", "methodp"): opened[e["s"]] = (e["name"] if e["o"] == "method" else "main.exec()", "", "")
        if e["o"] in ("api", "apiprop"): opened[e["s"]] = (e["name"], e.get("stxid", ""), e["addr"])
    goro = add(S("msg", "goroutine:#", start=0))
    items = {}
    n = [0]
    def put(x, i, q, ps):
        if not ps or not x: return
        n[0] += 1
        items.setdefault(x, []).append((i, {"k": "call", "th": "o%d" % n[0], "prims": ps}))
        items[x].append((q, {"k": "ret", "th": "o%d" % n[0]}))
    born = {}
    for e in ev:
        o, x = e["o"], ctx.get(e.get("c"))
        if o in ("start", "starthttp") and x and x not in born:
            born[x] = e["q"]
            ps = [goro]
            if o == "starthttp":
                H = {k.lower(): ",".join(v) if isinstance(v, list) else v for k, v in (e["req"].get("headers") or {}).items()}
                if heads.get("all"):
                    for k, v in (e["req"].get("headers") or {}).items(): ps.append(add(S("msg", "header: %s: %s" % (k, H[k.lower()]))))
                for k in heads.get("keys", []):
                    if k.lower() in H: ps.append(add(S("msg", "header: %s: %s" % (k, H[k.lower()]))))
                if heads.get("query"): ps.append(add(S("msg", "query: " + (e["req"]["url"].split("?", 1) + [""])[1])))
            put(x, e["i"], e["q"], ps)
        elif o == "inherit" and x:
            born[x] = e["q"]; put(x, e["i"], e["q"], [goro, add(S("msg", "scouter inheritance step", start=0))])
        elif o == "gostart" and x:
            g = gos[e["c"]]; par = ctx.get(g["c"])
            if par and par != x:
                born[x] = e["q"]; put(x, g["i"], e["q"], [goro])
                put(par, g["i"], g["q"], [add(S("async", g["name"], txid=x, v=1))])
    last = max([e["q"] for e in ev] + [q for q, _ in packs] + [0]) + 1
    for e in ev:
        o, x = e["o"], ctx.get(e.get("c"))
        if o == "goend" and x: put(x, e["q"], last, [{"p": "close"}])
        elif o not in ("start", "starthttp", "inherit", "gostart", "go") and x:
            if o in ("endmethod", "endapi"):
                if e["s"] not in opened: continue
                e["_name"], e["_txid"], e["_addr"] = opened[e["s"]]
            put(x, e["i"], e["q"], prims(e, heads))
    chunks, sizes, recs, perr = {}, {}, {}, []
    for q, p in packs:
        x = str(p.get("txid", ""))
        if p["p"] == "profile" and p["steps"]:
            chunks.setdefault(x, []).append([observed(s, T) for s in p["steps"]]); sizes.setdefault(x, []).append(p["size"])
            if x not in items: perr.append("profile of unknown transaction %s" % x)
        if p["p"] == "xlog": recs[x] = p
    out = []
    for x, its in items.items():
        for e in ev:
            if e["o"] == "advance" and e["q"] > born.get(x, 0): its.append((e["q"], {"k": "clock", "ms": int(e["ms"])}))
        for q, upto in flush:
            if x in born and born[x] < q and not (x in recs and recs[x]["q"] < q):
                its.append((q, {"k": "flushed", "n": sum(len(p["steps"]) for _, p in packs if p["p"] == "profile" and str(p["txid"]) == x and p["q"] <= q)}))
        if x in recs: its.append((last + 1, {"k": "record", "count": recs[x]["pcount"], "size": recs[x]["psize"]}))
        its.sort(key=lambda z: z[0])
        if x not in recs: continue      # still running
        out.append({"id": "%s-%s" % (tid, x), "keep": keep, "max": mx, "chunks": chunks.get(x, []), "sizes": sizes.get(x, []), "ev": [c for _, c in its]})
    return out, perr

LIMITS = [(1, 1), (2, 3), (3, 2), (5, 5), (4, 1), (8, 3), (2048, 1024), (7, 2)]

def par_program(rng, d):
    pre = [d.op({"o": rng.choice(["start", "starthttp"]), "c": "c"})]
    ths = []
    for t in range(rng.choice([2, 2, 3])):
        ops, st = [], []
        for i in range(rng.randrange(1, 5)):
            o = rng.choices(["msg", "hmsg", "pmsg", "method", "api", "close", "go", "err"], [3, 1, 1, 2, 2, 3, 1, 1])[0]
            s = "s%d.%d" % (t, i)
            if o == "close":
                if st: k, s = st.pop(); ops.append(d.op({"o": k, "c": "c", "s": s}))
            elif o in ("method", "api"):
                st.append(("endmethod" if o == "method" else "endapi", s)); ops.append(d.op({"o": o, "c": "c", "s": s}))
            elif o == "go": ops.append({"o": "go", "c": "c", "k": "k%d.%d" % (t, i), "name": d.text("go"), "body": [d.op({"o": "msg", "c": "k%d.%d" % (t, i)})]})
            else: ops.append(d.op({"o": o, "c": "c"}))
        if rng.random() < 0.35: ops.append({"o": "end", "c": "c"})
        ths.append(ops)
    return pre, ths

def run(ctx):
    ctx.build("agent")
    gens, traces = ctx.generate("ProgGen", "ProgGen_prof.cfg", ctx.pick(200, 4000), 26), []
    gens += ctx.generate("ProgGen", "ProgGen_any.cfg", ctx.pick(80, 2000), 40)
    def worker(k):
        rng = random.Random(ctx.seed * 43 + k)
        keep, mx = LIMITS[k]
        heads = [{}, {"keys": ["User-Agent", "Referer"], "query": True}, {"query": True}, {"all": True}][k % 4]
        conf = {"profile_step_max_keep_in_memory_count": keep, "profile_step_max_count": mx, "stuck_service_remove_enabled": "false"}
        if heads.get("keys"): conf.update(profile_http_header_enabled="true", profile_http_header_keys="User-Agent,Referer")
        if heads.get("all"): conf.update(profile_http_header_enabled="true")
        if heads.get("query"): conf.update(profile_http_querystring_enabled="true")
        if k == 5: conf["udp_max_bytes"] = 700
        a = start_agent(ctx, conf=conf)
        a.call("freezenow")
        T = Texts(); T.learn(["main.exec()"])
        def vary(ops, d):
            for o in ops:
                if o["o"] == "method" and rng.random() < 0.25:
                    o["o"] = "methodp" if o.get("params") else "method0"
                if o["o"] == "starthttp":
                    q = o["req"]
                    if rng.random() < 0.4: q["url"] = q["url"].split("?")[0] + rng.choice(["?b=2&a=1&a=%20x+y", "?a", "?x=;y&&=z", "?q=%d%s&r=a,b", "?" + "z" * 500, "?a=1?b=2"])
                    h = q["headers"]
                    if heads.get("all"):
                        # in no order: one at most
                        for x in list(h)[1:]: del h[x]
                        if not h and rng.random() < 0.5: h["X-Abc"] = d.text("h")
                    for x in h:
                        if rng.random() < 0.2: h[x] = [h[x], d.text("h"), "a,b"][:rng.choice([1, 2, 3])]
                vary(o.get("body", []), d)
        def reconf(x, y):
            a.call("conf", text=a.text(dict(a.base, **dict(conf, profile_step_max_keep_in_memory_count=x, profile_step_max_count=y))))
        def learn(x):
            s = set(); flat_strings(x, s); T.learn(s)
        def batch(tid, parts, mode=None, ths=None, limits=()):
            """runs the parts one after the other, waiting for what the agent sends in between;
            limits: (buffer, record) in force from the second part on, and so forth"""
            a.call("reset")
            EV, PK, FL = [], [], []
            for j, ops in enumerate(parts):
                if j and j <= len(limits): reconf(*limits[j - 1])
                if mode and j == 1:
                    kw = {"pct": {"depth": rng.choice([2, 3, 4]), "len": rng.choice([40, 120, 400])}, "walk": {"stay": rng.choice([0, 128, 240])}}.get(mode, {})
                    r0 = a.call("par", threads=ths, mode=mode, seed=rng.randrange(1 << 30), **kw)
                    if r0.get("dead") or r0.get("stalled"):
                        raise Violation("concurrent operations block each other", {"threads": ths, "result": r0})
                else: a.call("seq", ops=ops)
                ev, pk, errs, r = collect(a, a.call("ping", quiesce=True, take=True))
                if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
                EV += ev; PK += pk
                a.call("seq", ops=[{"o": "nop"}])
                q = a.call("ping", take=True)["ev"][0]["q"]
                FL.append((q, None))
            if limits: reconf(keep, mx)
            ts, perr = traces_of(tid, EV, PK, T, max([keep] + [x for x, _ in limits]), max([mx] + [y for _, y in limits]), heads, FL)
            if perr: raise Violation(perr[0], {"events": EV})
            traces.extend(ts)
        for i, h in enumerate(gens[k::8]):
            d = Decor(rng, "%d.%d" % (k, i))
            ops = d.program(h); vary(ops, d); learn(ops)
            cut = rng.randrange(len(ops))
            while cut and ops[cut - 1]["o"] == "go": cut -= 1
            tail = [{"o": "end", "c": o["c"]} for o in ops if o["o"] in ("start", "starthttp", "inherit")]
            batch("p%d-%d" % (k, i), [ops[:cut], ops[cut:], tail])
        for i in range(ctx.pick(90, 2500)):
            d = Decor(rng, "q%d.%d" % (k, i), plain=True)
            pre, ths = par_program(rng, d)
            for t in [pre] + ths: vary(t, d)
            learn([pre, ths])
            mode = rng.choice(["pct", "pct", "walk", "free"])
            batch("par%d-%d-%s" % (k, i, mode), [pre, None, [{"o": "end", "c": "c"}]], mode, ths)
            ctx.count("schedules")
        # other limits in the middle of a transaction
        for i in range(ctx.pick(6, 100)):
            d = Decor(rng, "l%d.%d" % (k, i), plain=True)
            parts = [[d.op({"o": "start", "c": "c"})]] + [[d.op({"o": rng.choice(["msg", "hmsg", "pmsg"]), "c": "c"}) for _ in range(rng.choice([1, 3, 6, 12]))] for _ in range(rng.choice([1, 2, 4]))] + [[{"o": "end", "c": "c"}]]
            parts[0] += [d.op({"o": "msg", "c": "c"}) for _ in range(rng.choice([0, 1, 2, 5]))]
            learn(parts)
            batch("lim%d-%d" % (k, i), parts, limits=[rng.choice(LIMITS + [(12, 12)]) for _ in parts[1:]])
        # sizes around the limits, in one transaction
        sizes = [keep - 1, keep, keep + 1, 2 * keep - 1, 2 * keep + 1, mx, mx + 1, 3 * mx] if keep < 100 else \
            ctx.pick([1023, 1024, 2047, 2049], [1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 6200])
        for n in sizes:
            if n < 1: continue
            d = Decor(rng, "n%d.%d" % (k, n), plain=True)
            ops = [d.op({"o": "start", "c": "c"})]
            m = n - 1
            while m > 0:
                if m > 2 and rng.random() < 0.3:
                    s = "m%d" % m
                    ops += [d.op({"o": "method", "c": "c", "s": s}), d.op({"o": "msg", "c": "c"}), d.op({"o": "endmethod", "c": "c", "s": s})]
                    ops[-3].pop("params", None); m -= 2
                else: ops.append(d.op({"o": "msg", "c": "c"})); m -= 1
            learn(ops)
            batch("n%d-%d" % (k, n), [ops, [{"o": "end", "c": "c"}]])
        a.close()
    def models():
        for c in ["", "2", "_any"]: ctx.model("Profile", "ProfileMC%s.cfg" % c, workers=1, expect_actions=["Add", "Push", "Pop", "Close"])
        ctx.refute("Profile", "ProfileMC_broken.cfg")
        if ctx.thorough: ctx.model("Profile", "ProfileMC_big.cfg", workers=6, timeout=3000, heap="12g")
    parallel([models] + [lambda k=k: worker(k) for k in range(8)], 9)
    n = [0]
    def corrupt(t):
        n[0] += 1
        if not t["chunks"]: return None
        c = t["chunks"][n[0] % len(t["chunks"])]
        w = n[0] % 6
        if w == 0: c.pop()
        elif w == 1: c[-1]["i"] += 1
        elif w == 2:
            if len(t["chunks"]) > 1: t["chunks"].pop()
            else: return None
        elif w == 3: t["chunks"].append([dict(c[0])])
        elif w == 4: c[0]["s"]["text"] += "!"
        else: t["ev"][-1]["size"] += 1
        return t
    ctx.judge("ProfTrace", "ProfTrace.cfg", traces, "profiles", selftest=corrupt, heap="3g")
    ctx.assumptions += ["parents are checked in histories whose steps are closed in the reverse order of opening",
                        "the order of delivered records is not constrained (they are sent by goroutines of their own); each record is a run of consecutively completed steps"]
