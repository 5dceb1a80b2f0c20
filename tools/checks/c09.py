"""C09: published service statistics equal the last N seconds of completions."""
import math
from progs import *

def svc(r, n):
    """counts behind the published ratios"""
    n = min(n, 300)
    if not (math.isfinite(r["tps"]) and math.isfinite(r["err"])): return {"count": -1, "elapsed": r["elapsed"], "err": -1, "exact": False}
    c = round(r["tps"] * n)
    exact = abs(r["tps"] * n - c) <= 1e-4 * max(1, c)
    er = round(r["err"] * c / 100) if c else 0
    exact = exact and (abs(r["err"] * c / 100 - er) <= 1e-4 * max(1, er) if c else r["err"] == 0)
    return {"count": c, "elapsed": r["elapsed"], "err": er, "exact": bool(exact)}

def val(r):
    s = r.get("sum")
    if not (math.isfinite(r["avg"]) and math.isfinite(s or 0)): return {"avg1000": -1, "exact": False}
    a = round(r["avg"] * 1000)
    x = {"avg1000": a, "exact": abs(r["avg"]) < 1e6}
    if s is not None:
        x["sum"] = round(s); x["exact"] = x["exact"] and abs(s - round(s)) < 1e-6
    return x

def convert(h):
    out, open_ = [], {}
    for e in h:
        if e["k"] == "call":
            out.append(dict(e, r={})); open_[e["th"]] = out[-1]
        else:
            c = open_[e["th"]]
            if c["op"]["o"] == "get": c["r"] = svc(e["r"], c["op"]["n"])
            elif c["op"]["o"] == "vget": c["r"] = val(e["r"])
            out.append({"k": "ret", "th": e["th"]})
    return out

GAPS = [1, 10, 300, 500, 700, 999, 1000, 1001, 2000, 5000, 29000, 30000, 31000, 59000, 150000, 298000, 299000, 300000, 301000, 302000, 330000, 600000, 602000, 1000000, 5000000]
NS = [1, 2, 3, 5, 10, 29, 30, 31, 60, 100, 150, 299, 300, 300, 301, 1000]

def op(rng, short=False):
    x = rng.random()
    if x < 0.35:
        o = {"o": "add", "el": rng.choice([0, 1, 7, 100, 333, 5000, 60000, -5]), "err": rng.random() < 0.35}
        if not short and rng.random() < 0.2: o["times"] = rng.choice([2, 10, 100])
        return o
    if x < 0.45: return {"o": "vadd", "x": rng.choice([0, 1, 2, 3, 17, 1000])}
    ns = NS[:4] if short and rng.random() < 0.9 else NS
    if x < 0.67: return {"o": "get", "n": rng.choice(ns)}
    if x < 0.75: return {"o": "vget", "n": rng.choice(ns)}
    if short and rng.random() < 0.9: return {"o": "tick", "ms": rng.choice([1, 500, 1000, 2000, 5000])}
    return {"o": "tick", "ms": rng.choice(GAPS[:14] if rng.random() < 0.7 else GAPS)}

def run(ctx):
    ctx.build("unit"); ctx.build("agent")
    seqs, pars, packs = [], [], []
    def worker(k):
        rng = random.Random(ctx.seed * 211 + k)
        a = ctx.agent(name="unit", udp=False)
        for i in range(ctx.pick(40, 1200)):
            ms = rng.choice([0, 1, 500, 999])
            pre = []
            if rng.random() < 0.3:      # a steady load, read at every length of window
                for _ in range(rng.choice([5, 40, 120])):
                    pre.append({"o": "add", "el": rng.randrange(1000), "err": rng.random() < 0.3, "times": rng.choice([1, 2, 3])})
                    if rng.random() < 0.5: pre.append({"o": "vadd", "x": rng.randrange(50)})
                    pre.append({"o": "tick", "ms": rng.choice([1000, 1000, 1000, 2000, 5000, 400])})
                pre += [{"o": o, "n": n} for n in sorted(set(NS)) for o in ("get", "vget")]
            else:
                pre = [op(rng) for _ in range(rng.choice([20, 60, 150]))]
            if sum(o.get("ms", 0) for o in pre) > 900000000: continue
            r = a.call("meter", pre=pre, threads=[], mode="walk", runs=1, gap=rng.choice([302, 400, 1000, 1204]), ms=ms)
            for h in r["hist"]: seqs.append({"id": "seq%d-%d" % (k, i), "ms": ms, "ev": convert(h)})
        for i in range(ctx.pick(25, 600)):
            ths = [[op(rng, True) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
            pre = ([{"o": "get", "n": 1}, {"o": "vget", "n": 1}] if rng.random() < 0.95 else []) + [op(rng, True) for _ in range(rng.choice([0, 2, 6]))]
            after = [{"o": o, "n": n} for n in (1, 30, 300) for o in ("get", "vget")]
            ms = rng.choice([0, 500, 999])
            for mode, runs, kw in (("dfs", ctx.pick(60, 600), {"pb": 2}), ("pct", ctx.pick(20, 200), {"depth": 3, "len": 60}), ("walk", 10, {"stay": 128})):
                r = a.call("meter", pre=pre, threads=ths, after=after, mode=mode, runs=runs, seed=rng.randrange(1 << 30), gap=400, ms=ms, **kw)
                ctx.count("schedules", r["runs"])
                if r["dead"] or r["stalled"]: raise Violation("operations of the meters block each other", {"pre": pre, "threads": ths})
                if r["panics"]: raise Violation("an operation of a meter panics: %s" % r["panics"][0][:200], {"pre": pre, "threads": ths, "panics": r["panics"]})
                for j, h in enumerate(r["hist"]): pars.append({"id": "par%d-%d-%s-%d" % (k, i, mode, j), "ms": ms, "ev": convert(h)})
        a.close()
    def agentpacks(k):
        """the counter records of a running agent"""
        rng = random.Random(ctx.seed * 223 + k)
        a = start_agent(ctx)
        a.call("scale", f=0.008)
        a.call("freezenow")
        total = 0
        a.call("ping", quiesce=True, take=True)
        for i in range(ctx.pick(12, 200)):
            a.call("reset")
            a.call("advance", ms=400000 + -total % 1000); total = 0     # to a whole second
            ms, ev, openc, n = 0, [], [], 0
            a.call("ping", quiesce=True, take=True)
            one = lambda op, r: ev.extend([{"k": "call", "th": 0, "op": op, "r": r}, {"k": "ret", "th": 0}])
            for step in range(rng.choice([2, 4, 8])):
                ops = []
                for _ in range(rng.randrange(0, 6)):
                    x = rng.random()
                    if x < 0.45 or not openc:
                        n += 1; c = "c%d" % n; openc.append((c, [ms, False])); ops.append({"o": "start", "c": c, "name": "s", "ip": "1.1.1.1"})
                    elif x < 0.6:
                        c, st = rng.choice(openc); st[1] = True; ops.append({"o": "err", "c": c, "m": "e"})
                    else:
                        c, st = openc.pop(rng.randrange(len(openc)))
                        ops.append({"o": "end", "c": c}); one({"o": "add", "el": ms - st[0], "err": st[1]}, {})
                    if rng.random() < 0.5:
                        t = rng.choice([1, 250, 1000, 1500, 7000, 29000]); ms += t
                        ops.append({"o": "advance", "ms": t}); one({"o": "tick", "ms": t}, {})
                if rng.random() < 0.3: ops.append({"o": "svccounter"})
                a.call("seq", ops=ops)
                a.call("resume"); time.sleep(rng.choice([0.02, 0.03, 0.1])); a.call("pause", ms=900); time.sleep(0.01)
                evs, ps, errs, _ = collect(a, a.call("ping", quiesce=True, take=True))
                if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
                got = [p for q, p in ps if p["p"] == "perf"]
                # one of the last two times of the statistics: all packs of this stretch are concurrent
                cs, rs = [], []
                for j, p in enumerate(got):
                    d = p["data"]
                    rt = p["timetype"] == 1
                    N = 30 if rt else 300
                    tps, el, er = d.get("GoTPS"), d.get("GoElapsedTime"), d.get("GoErrorRate")
                    if tps is None or el is None or er is None or any(isinstance(x, bool) or not isinstance(x, (int, float)) for x in (tps, el, er)):
                        raise Violation("a counter record lacks a value under its label", p)
                    r = svc({"tps": tps, "elapsed": int(el), "err": er}, N)
                    av = d.get("GoActiveService")
                    spd = d.get("ActiveSpeed")
                    if av is None and spd is not None: raise Violation("a counter record lacks the active count", p)
                    if av is not None: r.update(val({"avg": av}))
                    o = {"o": "pack", "n": N, "active": len(openc), "samples": rt and spd is not None, "avg": av is not None}
                    cs.append({"k": "call", "th": 100 + j, "op": o, "r": r}); rs.append({"k": "ret", "th": 100 + j})
                    ctx.count("counter_records")
                ev.extend(cs + rs)
            a.call("seq", ops=[{"o": "end", "c": c} for c, _ in openc])
            total = ms
            packs.append({"id": "pack%d-%d" % (k, i), "ms": 0, "ev": ev})
        a.close()
    def models():
        ctx.model("Meter", "MeterMC.cfg", workers=3, expect_actions=["Tick", "Position", "Put", "Sum"])
        ctx.refute("Meter", "MeterMC_unlocked.cfg"); ctx.refute("Meter", "MeterMC_gap.cfg")
        if ctx.thorough: ctx.model("Meter", "MeterMC_big.cfg", workers=6, timeout=3000, heap="12g")
    parallel([models] + [lambda k=k: worker(k) for k in range(5)] + [lambda k=k: agentpacks(k) for k in range(3)], 9)
    seen, uniq = set(), []
    for t in pars:
        s = json.dumps([t["ms"], t["ev"]], sort_keys=True)
        if s not in seen: seen.add(s); uniq.append(t)
    n = [0]
    def corrupt(t):
        n[0] += 1
        c = [e for e in t["ev"] if e["k"] == "call" and e["op"]["o"] in ("get", "vget", "pack")]
        if not c: return None
        e = c[n[0] * 5 % len(c)]
        f = [x for x in ("count", "err", "sum") if x in e["r"]]
        if not f: return None
        e["r"][f[n[0] % len(f)]] += 1
        return t
    ctx.judge("MeterTrace", "MeterTrace.cfg", seqs, "sequential meter histories", selftest=corrupt)
    ctx.judge("MeterTrace", "MeterTrace.cfg", uniq, "concurrent meter histories", selftest=corrupt)
    ctx.judge("MeterTrace", "MeterTrace.cfg", packs, "counter records", selftest=corrupt)
    ctx.assumptions += ["the clock does not go backwards", "ratios are recovered to whole counts (float32)"]
