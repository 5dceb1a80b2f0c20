"""C08: the caches are linearizable bounded FIFO maps."""
import json
from vlib import *

KEYS = ["a", "b", "c", "d"]
OPS = {"lra": ["add", "remove", "get", "contains", "size", "empty", "values", "clear"],
       "cachemap": ["add", "remove", "get", "contains", "size", "empty", "values", "clear"],
       "cachemap2": ["add", "remove", "get", "contains", "size", "empty", "values", "clear"],
       "cacheset": ["add", "contains", "size", "empty", "clear"]}
W = {"add": 5, "remove": 3, "get": 2, "contains": 2, "values": 2, "size": 2, "empty": 2, "clear": 1}

def op(rng, variant, k=None, o=None, v=""):
    o = o or rng.choices(OPS[variant], [W[x] for x in OPS[variant]])[0]
    return {"o": o, "k": k or rng.choice(KEYS), "v": v}

def number(threads, pre, after):
    n = 0
    for l in [pre] + threads + [after]:
        for x in l:
            n += 1
            x["v"] = "v%d" % n

def programs(rng, variant, n):
    """pairs of single operations on a full and a half-full cache (all of them),
    then random programs of two or three threads"""
    out = []
    names = OPS[variant]
    for i, a in enumerate(names):
        for b in names[i:]:
            for fill in (1, 2):
                pre = [op(rng, variant, k, "add") for k in KEYS[:fill]]
                k1 = rng.choice(KEYS); k2 = rng.choice([k1, rng.choice(KEYS)])
                out.append((2, pre, [[op(rng, variant, k1, a)], [op(rng, variant, k2, b), op(rng, variant)]], 2))
    rng.shuffle(out)
    for _ in range(n):
        bound = rng.choice([1, 2, 2, 3])
        pre = [op(rng, variant, k, "add") for k in KEYS[:rng.randrange(0, bound + 1)]]
        nt = rng.choice([2, 2, 3])
        out.append((bound, pre, [[op(rng, variant) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(nt)], 1 if nt == 3 else 2))
    return out

def run(ctx):
    mc = ["lra", "cachemap"]
    def models():
        ctx.model("CacheMC", "CacheMC.cfg", workers=3, expect_actions=["Begin", "WLock", "W1", "W2", "RLock", "R1", "V1", "VRe", "VEnd"])
        ctx.model("CacheMC", "CacheMC2.cfg", workers=3)
        for broken in ("nested", "stays", "renews", "outside", "forgets", "stops"):
            ctx.refute("CacheMC", "CacheMC_%s.cfg" % broken)
        if ctx.thorough:
            ctx.model("CacheMC", "CacheMC3.cfg", workers=6, timeout=3000, heap="10g")
    gens = []
    def gen():
        gens.extend(ctx.generate("CacheGen", "CacheGen.cfg", ctx.pick(300, 3000), 42))
    ctx.build("unit")
    parallel([models, gen], 2)
    traces = []
    # 1. behaviours of the specification, one thread, on the real caches
    a = ctx.agent(name="unit", udp=False)
    for i, g in enumerate(gens):
        ops = [dict(o) for o in g["ops"]]
        r = a.call("cache", variant=g["variant"], bound=g["bound"], pre=ops, threads=[], mode="dfs", runs=1)
        if r["panics"]:
            ctx.violation("a cache operation panics (%s)" % g["variant"], {"program": g, "panics": r["panics"]}); continue
        for h in r["hist"]:
            traces.append({"id": "seq-%s-%d" % (g["variant"], i), "variant": g["variant"].replace("lrakey", "lra"), "bound": g["bound"], "threads": 1, "ev": h})
    a.close()
    # 2. concurrent programs under controlled schedules: exhaustive within the
    # preemption bound, and randomised priorities beyond it
    jobs = []
    for v in OPS:
        for p in programs(ctx.rng, v, ctx.pick(40, 400)):
            jobs.append((v, p))
    ctx.rng.shuffle(jobs)
    seeds = [ctx.rng.randrange(1 << 30) for _ in jobs]
    par = []
    def worker(k):
        ag = ctx.agent(name="unit", udp=False)
        n = steps = 0
        for i in range(k, len(jobs), 8):
            variant, (bound, pre, threads, pb) = jobs[i]
            number(threads, pre, [])
            after = [{"o": "size", "k": "a", "v": ""}] + [{"o": "contains", "k": x, "v": ""} for x in KEYS]
            if "values" in OPS[variant]:
                after += [{"o": "values", "k": "a", "v": ""}]
            # two more insertions show which keys the cache would evict next
            after += [{"o": "add", "k": "z%d" % j, "v": "z%d" % j} for j in range(bound)][:2] + [{"o": "contains", "k": x, "v": ""} for x in KEYS]
            for mode, runs, kw in (("dfs", ctx.pick(250, 3000), {"pb": pb}), ("pct", ctx.pick(40, 400), {"depth": 3, "len": 60}), ("walk", ctx.pick(20, 200), {"stay": 128})):
                r = ag.call("cache", variant=variant, bound=bound, pre=pre, threads=threads, after=after, mode=mode, runs=runs, seed=seeds[i], **kw)
                n += r["runs"]; steps += r["steps"]
                if r["dead"]:
                    ctx.violation("deadlock between operations of %s" % variant, {"program": jobs[i], "mode": mode, "history": r["hist"][-1]})
                    ag.close(); ag = ctx.agent(name="unit", udp=False)
                    break
                if r["panics"]:
                    ctx.violation("an operation of %s panics" % variant, {"program": jobs[i], "panics": r["panics"]})
                if r["stalled"]:
                    raise CheckError("schedule of %s did not finish" % variant)
                for j, h in enumerate(r["hist"]):
                    par.append({"id": "%s-%d-%s-%d" % (variant, i, mode, j), "variant": variant, "bound": bound, "threads": len(threads), "ev": h})
        ag.close()
        ctx.count("schedules", n); ctx.count("schedule_steps", steps)
    parallel([lambda k=k: worker(k) for k in range(8)])
    # the same history from different schedules is one trace
    seen, uniq = set(), []
    for t in par:
        s = json.dumps([t["variant"], t["bound"], t["ev"]], sort_keys=True)
        if s not in seen:
            seen.add(s); uniq.append(t)
    ctx.count("distinct_concurrent_histories", len(uniq))
    cap = ctx.pick(12000, 150000)
    if len(uniq) > cap:
        ctx.rng.shuffle(uniq); uniq = uniq[:cap]
    if ctx.violations:
        return
    traces += uniq
    def corrupt(t):
        for e in reversed(t["ev"]):
            if e["k"] == "ret" and e["r"] in ("true", "false"):
                e["r"] = "false" if e["r"] == "true" else "true"; return t
        return None
    ctx.judge("CacheTrace", "CacheTrace.cfg", traces, "cache histories", selftest=corrupt, shards=8)
    # 3. real parallelism: unsynchronised access ends the process in Go
    def stress():
        s = ctx.agent(name="unit", udp=False)
        r = s.call("cachestress", ms=ctx.pick(1500, 10000), seed=ctx.seed, timeout=200)
        for v in ("lra", "cachemap", "cachemap2", "cacheset"):
            ctx.count("stress_operations", r[v]["ops"])
            if r[v]["stuck"]:
                raise Violation("operations of %s stop making progress under load" % v, r[v])
        if r["bad"]:
            raise Violation("under load: %s" % r["bad"][0], r["bad"][:50])
        s.close()
    stress()
    ctx.assumptions += ["keys and values are strings; bounds 1..4 (8 under load)", "a bound of zero is not exercised",
                        "schedules switch at statement boundaries; the order of effects inside one statement is the compiler's"]
