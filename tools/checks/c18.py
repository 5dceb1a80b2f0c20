"""C18: the runtime counters describe the running program."""
import math
from progs import *
LABELS = ("Goroutine", "GoCgoCall", "GoGcCount", "GoGcPause", "GoHeapUsed")
REALTIME, FIVEMIN = 1, 3

def record(p):
    d = p["data"]
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    labels = all(num(d.get(k)) for k in LABELS)
    v = lambda k: d[k] if num(d.get(k)) else 0
    gc, pause = v("GoGcCount"), v("GoGcPause")
    fin = all(math.isfinite(x) and abs(x) < 2000 for x in (gc, pause))
    return {"labels": labels, "g": int(v("Goroutine")), "cgo": int(v("GoCgoCall")), "heap": int(v("GoHeapUsed")) >> 10,
            "fin": fin, "gc": round(gc * 1e6) if fin else 0, "pause": round(pause * 1e4) if fin else 0}

def see(r): return {"heap": r["heap"] >> 10, "cgo": r["cgo"]}

def run(ctx):
    ctx.build("agent", cgo=True)
    traces = []
    def worker(k):
        rng = random.Random(ctx.seed * 307 + k)
        a = start_agent(ctx)
        a.call("gcoff"); a.call("scale", f=0.008); a.call("freezenow")
        a.call("ping", quiesce=True, take=True)
        parked = 0
        fives = 0
        for i in range(ctx.pick(14, 200)):
            ev = []
            par = a.call("runtime")["gor"]
            name = a.call("confget")
            for step in range(rng.choice([4, 8, 14])):
                for _ in range(rng.randrange(0, 4)):
                    x = rng.random()
                    if x < 0.4:
                        r = a.call("gc", n=rng.choice([0, 1, 1, 2, 3, 10]))
                        ev.append({"k": "gc", "n": r["n"], "ns": r["ns"] // 100})
                    elif x < 0.6:
                        n = rng.choice([40, 100, 700, -40, -100, -parked])
                        if parked + n < 0: n = -parked
                        parked += n; a.call("park", n=n); ev.append({"k": "park", "n": n})
                    elif x < 0.7: a.call("ccalls", n=rng.choice([1, 2, 50, 1000]))
                    else:
                        a.call("hold", kb=rng.choice([0, 64, 5000, 70000]))
                s = rng.choice([1, 7, 15, 20, 20, 20, 20, 21, 29, 50, 100, 600]) if rng.random() < 0.9 else 0
                if s: a.call("advance", ms=100 * s); ev.append({"k": "tick", "s": s})
                a.call("ping", quiesce=True, take=True)
                lo = see(a.call("runtime"))
                a.call("resume")
                got, t0 = [], time.time()
                while True:
                    time.sleep(rng.choice([0.02, 0.03, 0.12]))
                    a.call("pause", ms=900); time.sleep(0.01)
                    evs, ps, errs, _ = collect(a, a.call("ping", quiesce=True, take=True))
                    if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
                    perf = [p for q, p in ps if p["p"] == "perf"]
                    fives += sum(p["timetype"] == FIVEMIN for p in perf)
                    got += [record(p) for p in perf if p["timetype"] == REALTIME]
                    for p in perf:
                        if p["timetype"] not in (REALTIME, FIVEMIN): raise Violation("a counter record of an unknown kind", p)
                    if got or time.time() - t0 > 20: break
                    a.call("resume")
                hi = see(a.call("runtime"))
                hi["heap"] += 1
                ev.append({"k": "reads", "lo": lo, "hi": hi, "recs": got})
                ctx.count("records", len(got))
                if not got: break
            traces.append({"id": "r%d-%d" % (k, i), "par": par, "ev": ev})
        # (its first sleep began before the harness shortened them)
        a.call("resume"); t0 = time.time()
        while not fives and time.time() - t0 < 40:
            time.sleep(0.2)
            _, ps, errs, _ = collect(a, a.call("ping", quiesce=True, take=True))
            fives += sum(p["p"] == "perf" and p["timetype"] == FIVEMIN for q, p in ps)
        if not fives: raise Violation("no five-minute counter record was sent", {"histories": k})
        a.close()
    def models():
        ctx.model("Runtime", "RuntimeMC.cfg", workers=2, expect_actions=["Tick", "Collect", "Clock", "Stats", "Report", "Keep", "FiveMin"])
        for b in ("never", "again", "shared", "period"): ctx.refute("Runtime", "RuntimeMC_%s.cfg" % b)
    parallel([models] + [lambda k=k: worker(k) for k in range(7)], 8)
    n = [0]
    def corrupt(t):
        n[0] += 1
        c = [(i, e) for i, e in enumerate(t["ev"]) if e["k"] == "reads" and e["recs"]]
        timed = [e for j, (i, e) in enumerate(c) if j and any(x["k"] == "tick" for x in t["ev"][c[j - 1][0]:i])]
        f = ("g", "heap", "gc", "pause", "cgo")[n[0] % 5]
        if f in ("gc", "pause"):
            if not timed: return None
            e = timed[n[0] % len(timed)]
            for r in e["recs"]: r[f] += 1000 if r["fin"] else 0
        else:
            e = c[n[0] % len(c)][1]
            e["recs"][0][f] += {"g": 32, "heap": 100000, "cgo": 1000000}[f]
        return t
    ctx.judge("RuntimeTrace", "RuntimeTrace.cfg", traces, "counter records of a program under control", selftest=corrupt)
    ctx.assumptions += ["collections happen only when the program asks for them (SetGCPercent(-1))", "up to 15 goroutines of the agent come and go while a record is taken"]
