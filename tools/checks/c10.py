"""C10: sampling decides exactly as configured which records and profiles are sent."""
from progs import *

NAMES = ["/a", "/b", "/api/x", "/api/y", "/admin", "/x", "/health", "x"]
PATS = ["/a", "/a*", "*x", "/api/*", "/admin,/health", "*", "/b,*y", "a*i", "/*/x", "/health", "*ap*", "nomatch"]
KEYS = {"g": "xlog_sampling", "r1": "xlog_patterned_sampling", "r2": "xlog_patterned2_sampling", "r3": "xlog_patterned3_sampling"}

def rule(rng, on):
    s = rng.choice([[100, 500, 1000], [10, 20, 30], [1, 2, 3], [50, 10, 100], [0, 5, 5], [0, 0, 0], [30, 30, 40]])
    p = [rng.choice([0, 1, 2, 7, 15, 33, 50, 99, 100, 100, 0, 120, -3]) for _ in range(4)]
    return {"on": on, "s1": s[0], "s2": s[1], "s3": s[2], "p1": p[0], "p2": p[1], "p3": p[2], "p4": p[3], "only": rng.random() < 0.4}

def config(rng, sure=False):
    c = {"showerr": rng.random() < 0.6}
    kind = rng.random()
    for r in KEYS:
        c[r] = rule(rng, rng.random() < (0.7 if r == "g" else 0.5))
        if sure:
            for f in ("p1", "p2", "p3", "p4"): c[r][f] = rng.choice([0, 100])
    pats = {"excl": rng.choice(PATS + [""] * 6), "disc": rng.choice(PATS[:1] + PATS[4:5] + [""] * 4), "m1": rng.choice(PATS + [""]), "m2": rng.choice(PATS + [""]), "m3": rng.choice(PATS + [""])}
    return c, pats

def conf_of(c, pats):
    d = {"xlog_discard_service_show_error": str(c["showerr"]).lower(), "xlog_sampling_exclude_patterns": pats["excl"], "xlog_discard_service_patterns": pats["disc"]}
    for r, k in KEYS.items():
        x = c[r]
        d.update({k + "_enabled": str(x["on"]).lower(), k + "_only_profile": str(x["only"]).lower(), k + "_step1_ms": x["s1"], k + "_step2_ms": x["s2"], k + "_step3_ms": x["s3"],
                  k + "_step1_rate_pct": x["p1"], k + "_step2_rate_pct": x["p2"], k + "_step3_rate_pct": x["p3"], k + "_over_rate_pct": x["p4"]})
        if r != "g": d[k + "_service_patterns"] = pats["m" + r[1]]
    return {k: v for k, v in d.items() if v != ""}

def spec_conf(c, pats):
    return dict(c, **{k: ([list(p) for p in v.split(",")] if v else []) for k, v in pats.items()})

def outcome(txids, packs):
    rec, prof = {}, {}
    for q, p in packs:
        if p["p"] == "xlog": rec[str(p["txid"])] = rec.get(str(p["txid"]), 0) + 1
        elif p["p"] == "profile": prof[str(p["txid"])] = prof.get(str(p["txid"]), 0) + 1
    o = {"full": 0, "record": 0, "nothing": 0, "strange": 0}
    for t in txids:
        r, f = rec.get(t, 0), prof.get(t, 0)
        if (r, f) == (1, 1): o["full"] += 1
        elif (r, f) == (1, 0): o["record"] += 1
        elif (r, f) == (0, 0): o["nothing"] += 1
        else: o["strange"] += 1
    return o

def run(ctx):
    ctx.build("agent")
    traces = []
    def worker(k):
        rng = random.Random(ctx.seed * 307 + k)
        a = start_agent(ctx, conf={"send_queue_size": 30000})
        a.call("freezenow")
        def setconf(c, pats): a.call("conf", text=a.text(dict(a.base, send_queue_size=30000, **conf_of(c, pats))))
        def done(ev0=None):
            r = a.call("ping", quiesce=True, take=True)
            ev, packs, errs, _ = collect(a, r)
            if a.drops(): raise CheckError("the receiver lost datagrams")
            if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
            return ev, packs
        for i in range(ctx.pick(40, 900)):
            late = rng.random() < 0.3
            c, pats = config(rng, sure=late)
            ev = []
            if late:
                # transactions under way when the configuration changes follow the new one
                a.call("reset"); setconf(*config(rng))
                ths = [(j, rng.choice(NAMES), rng.choice([0, 3, 15, 60, 700])) for j in range(12)]
                ops = []
                for j, name, el in ths:
                    ops += [{"o": "start", "c": "c%d" % j, "name": name, "ip": "1.1.1.1"}, {"o": "msg", "c": "c%d" % j, "m": "m"}]
                errs_ = {j for j, _, _ in ths if rng.random() < 0.25}
                for j in errs_: ops.append({"o": "err", "c": "c%d" % j, "m": "boom"})
                a.call("seq", ops=ops)
                setconf(c, pats)
                order = sorted(ths, key=lambda x: x[2])
                ops, t = [], 0
                for j, name, el in order:
                    ops += [{"o": "advance", "ms": el - t}] if el > t else []
                    t = max(t, el); ops.append({"o": "end", "c": "c%d" % j})
                a.call("seq", ops=ops)
                evs, packs = done()
                tx = {e["c"]: e.get("txid") for e in evs if e["o"] == "start"}
                ev.append({"k": "conf", "c": spec_conf(c, pats)})
                for j, name, el in order:
                    ev.append(dict({"k": "cell", "name": list(name), "el": el, "err": j in errs_, "child": False, "n": 1, "controlled": True}, **outcome([tx["c%d" % j]], packs)))
            else:
                setconf(c, pats)
                ev.append({"k": "conf", "c": spec_conf(c, pats)})
                for _ in range(rng.choice([3, 5, 8])):
                    name = rng.choice(NAMES)
                    r = rng.choice(["g", "g", "r1", "r2", "r3"])
                    el = max(0, rng.choice([c[r]["s1"], c[r]["s2"], c[r]["s3"]]) + rng.choice([-1, 0, 1, 0, 7]))
                    kind = rng.choice(["root", "root", "http", "inherit", "go"])
                    err = rng.random() < 0.2
                    a.call("reset")
                    a.call("seq", ops=[{"o": "sample", "n": 100, "name": name, "el": el, "err": err, "kind": kind}])
                    evs, packs = done()
                    e = [x for x in evs if x["o"] == "sample"][0]
                    if e.get("panic"): raise Violation("a tracing call panics: %s" % e["panic"][:200], e)
                    if len(e["txids"]) != 100: raise CheckError("%d of 100 transactions were started" % len(e["txids"]))
                    ev.append(dict({"k": "cell", "name": list(name), "el": el, "err": err, "child": kind in ("inherit", "go"), "n": 100, "controlled": e["draws"] > 0}, **outcome(e["txids"], packs)))
                    ctx.count("transactions", 100)
            traces.append({"id": "conf%d-%d" % (k, i), "ev": ev})
        a.close()
    def models():
        ctx.model("SamplingMC", "SamplingMC.cfg", workers=3, expect_actions=["General", "Patterned", "Txn"])
        ctx.refute("SamplingMC", "SamplingMC_loose.cfg")
        if ctx.thorough: ctx.model("SamplingMC", "SamplingMC_big.cfg", workers=6, timeout=3000, heap="12g")
    parallel([models] + [lambda k=k: worker(k) for k in range(8)], 9)
    n = [0]
    def corrupt(t):
        n[0] += 1
        cells = [e for e in t["ev"] if e["k"] == "cell" and e["n"] == 100 and e["controlled"]]
        if not cells: return None
        e = cells[n[0] % len(cells)]
        if e["full"] > 0: e["full"] -= 1; e["record" if n[0] % 2 else "nothing"] += 1
        else: e["full"] = 1; e["nothing" if e["nothing"] else "record"] -= 1
        return t
    ctx.judge("SamplingTrace", "SamplingTrace.cfg", traces, "sampling decisions", selftest=corrupt)
    ctx.assumptions += ["the random source is uniform: each cell is run under 100 equally spaced draws", "the exclusion list belongs to the general rule (in force only while it is enabled)",
                        "profiles shorter than the buffer (parts already delivered before the end cannot be withdrawn)"]
