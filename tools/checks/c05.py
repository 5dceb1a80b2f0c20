"""C05: every text hash the collector receives can be resolved."""
from progs import *

KINDS = ["service", "hmsg", "object", "referer", "ua", "method", "apicall", "error", "login", "desc", "stackelem"]

def trace(tid, ev, packs, tag, alone, marks=()):
    items = []
    for e in ev:
        if e["o"] == "text":
            t = e["m"]
            items.append((e["i"], {"k": "use", "th": e["th"], "kind": e["k"], "t": t, "h": e["h"], "want": wire.hash_string(t)}))
            items.append((e["q"], {"k": "used", "th": e["th"]}))
        elif e["o"] == "textloop":
            items.append((e["q"], {"k": "bulk", "kind": e["k"], "texts": ["%s%d" % (e["m"], i) for i in range(e["n"])]}))
        elif e["o"] == "resettext":
            if alone: items.append((e["q"], {"k": "reset"}))
            else:
                items.append((e["i"], {"k": "resetcall", "th": e["th"]})); items.append((e["q"], {"k": "used", "th": e["th"]}))
        elif e["o"] == "nop" and e.get("hold") is not None: items.append((e["q"], {"k": "hold", "on": e["hold"]}))
    w = []
    for q, p in packs:
        if p["p"] == "text" and tag in p["text"]:
            if p["hash"] != wire.hash_string(p["text"]): w.append({"k": "?", "t": p["text"]})
            else: w.append({"k": p["type"], "t": p["text"]})
    items.sort(key=lambda z: z[0])
    return {"id": tid, "alone": alone, "kinds": KINDS, "wire": w, "ev": [c for _, c in items] + [{"k": "quiet"}]}

def refs(packs):
    out = []
    def r(kind, h): out.append({"k": "ref", "kind": kind, "h": str(h)})
    for q, p in packs:
        if p["p"] == "xlog":
            for k, f in [("service", "service"), ("error", "error"), ("ua", "useragent"), ("referer", "referer"), ("login", "login"), ("desc", "desc"), ("hmsg", "thread")]:
                r(k, p[f])
        elif p["p"] == "profile":
            r("service", p["service"])
            for s in p["steps"]:
                if s["type"] == 1: r("method", s["hash"])
                elif s["type"] in (6, 14):
                    r("apicall", s["hash"])
                    if s["type"] == 6: r("error", s["error"])
                elif s["type"] in (9, 17): r("hmsg", s["hash"])
    return out

def run(ctx):
    ctx.build("agent")
    ctx_tr, ref_tr = [], []
    gens = ctx.generate("ProgGen", "ProgGen_any.cfg", ctx.pick(120, 2500), 40)
    def ops_for(rng, tag, kinds, n, words):
        ops = []
        for _ in range(n):
            x = rng.random()
            if x < 0.06: ops.append({"o": "resettext"})
            elif x < 0.1: ops.append({"o": "text", "k": rng.choice(kinds), "m": ""})
            else: ops.append({"o": "text", "k": rng.choice(kinds), "m": rng.choice(words)})
        return ops
    def worker(k):
        rng = random.Random(ctx.seed * 47 + k)
        held = k % 4 == 3      # a small queue whose sender is held at times
        a = start_agent(ctx, conf={"send_queue_size": 5} if held else {"send_queue_size": 30000})
        a.call("freezenow")
        kinds = [x for x in KINDS if x != "object"] if held else KINDS
        tn = [0]
        def fresh():
            tn[0] += 1
            a.call("seq", ops=[{"o": "resettext"}]); a.call("ping", quiesce=True, take=True)
            a.call("reset")
            return "<%d.%d>" % (k, tn[0])
        for i in range(ctx.pick(40, 900)):
            tag = fresh()
            words = ["w%d%s%s" % (j, tag, rng.choice(["", "é", "x" * 200])) for j in range(rng.choice([1, 2, 3, 6]))]
            if held:
                # fill the queue while the sender is held, use the same texts again afterwards
                a.call("pause", ms=90); time.sleep(0.03)
                o1 = [{"o": "nop", "hold": True}] + ops_for(rng, tag, kinds[:rng.choice([1, 3, 10])], rng.randrange(6, 16), words + ["y%d%s" % (j, tag) for j in range(8)])
                a.call("seq", ops=o1)
                a.call("pause", ms=900)
                r = a.call("ping", quiesce=True, take=True)
                ev, packs, errs, _ = collect(a, r)
                uses = [o for o in o1 if o["o"] == "text"]; rng.shuffle(uses)
                ev2, p2 = [], []
                for part in (uses[:3], uses[3:6], uses[6:9]):
                    a.call("seq", ops=[{"o": "nop", "hold": False}] + part)
                    x, y, er, _ = collect(a, a.call("ping", quiesce=True, take=True))
                    ev2 += x; p2 += y; errs += er
                ev, packs = ev + ev2, packs + p2
            else:
                a.call("seq", ops=ops_for(rng, tag, rng.sample(kinds, rng.choice([1, 2, 11])), rng.randrange(10, 60), words))
                ev, packs, errs, _ = collect(a, a.call("ping", quiesce=True, take=True))
            if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
            ctx_tr.append(trace("seq%d-%d" % (k, i), ev, packs, tag, True))
        if not held:
            for i in range(ctx.pick(60, 2500)):
                tag = fresh()
                words = ["w%d%s" % (j, tag) for j in range(rng.choice([1, 1, 2]))]
                ks = rng.sample(kinds, rng.choice([1, 1, 2]))
                ths = [[({"o": "resettext"} if rng.random() < 0.2 else {"o": "text", "k": rng.choice(ks), "m": rng.choice(words)}) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
                mode = rng.choice(["pct", "pct", "pct", "walk", "free"])
                kw = {"pct": {"depth": rng.choice([2, 3, 4]), "len": rng.choice([15, 40, 120])}, "walk": {"stay": rng.choice([0, 128, 240])}}.get(mode, {})
                r0 = a.call("par", threads=ths, mode=mode, seed=rng.randrange(1 << 30), **kw)
                if r0.get("dead") or r0.get("stalled"):
                    raise Violation("concurrent uses of texts block each other", {"threads": ths, "result": r0})
                a.call("seq", ops=[{"o": "text", "k": x, "m": w} for x in ks for w in words])
                ev, packs, errs, _ = collect(a, a.call("ping", quiesce=True, take=True))
                ctx_tr.append(trace("par%d-%d-%s" % (k, i, mode), ev, packs, tag, False))
                ctx.count("schedules")
            # the bounds: 100 object names, 10,000 of every other kind
            kind = "object" if k == 0 else KINDS[k]
            if k in (0, 1, 4) or ctx.thorough:
                b = 100 if kind == "object" else 10000
                tag = fresh()
                ops = [{"o": "text", "k": kind, "m": "f0" + tag}, {"o": "text", "k": kind, "m": "f1" + tag}, {"o": "textloop", "k": kind, "m": "a" + tag, "n": b - 2},
                       {"o": "text", "k": kind, "m": "f0" + tag}, {"o": "text", "k": kind, "m": "f1" + tag}, {"o": "textloop", "k": kind, "m": "b" + tag, "n": 2},
                       {"o": "text", "k": kind, "m": "a%s0" % tag}, {"o": "text", "k": kind, "m": "f0" + tag}, {"o": "text", "k": kind, "m": "a%s1" % tag}, {"o": "text", "k": kind, "m": "b%s1" % tag}]
                a.call("seq", ops=ops)
                ev, packs, errs, _ = collect(a, a.call("ping", quiesce=True, take=True))
                ctx_tr.append(trace("bound-%s" % kind, ev, packs, tag, True))
            # whole programs after a reset
            for i, h in enumerate(gens[k::6]):
                tag = fresh()
                d = Decor(rng, "%d.%d%s" % (k, i, tag))
                ops = d.program(h) + [{"o": "end", "c": o["c"]} for o in h if o["o"] in ("start", "starthttp", "inherit")]
                ev, packs, errs, _ = run_program(a, ops)
                if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], errs)
                te = [{"k": "text", "kind": p["type"], "h": str(p["hash"]), "want": str(wire.hash_string(p["text"]))} for q, p in packs if p["p"] == "text"]
                ref_tr.append({"id": "prog%d-%d" % (k, i), "ev": te + refs(packs)})
        a.close()
    def models():
        ctx.model("Dict", "DictMC.cfg", workers=2, expect_actions=["Use", "Enter", "Offer", "Remember", "Leave", "Drain", "Reset"])
        ctx.refute("Dict", "DictMC_unlocked.cfg"); ctx.refute("Dict", "DictMC_refused.cfg")
        if ctx.thorough: ctx.model("Dict", "DictMC_big.cfg", workers=6, timeout=3000, heap="12g")
    parallel([models] + [lambda k=k: worker(k) for k in range(8)], 9)
    n = [0]
    def corrupt(t):
        n[0] += 1
        if not t["wire"] or len(t["ev"]) > 100: return None
        if n[0] % 2: t["wire"].pop(n[0] % len(t["wire"]))
        else:
            t["wire"].insert(0, dict(t["wire"][-1]))
            if not t["alone"]: return None
        return t
    ctx.judge("DictTrace", "DictTrace.cfg", ctx_tr, "text translations", selftest=corrupt, heap="3g")
    def corrupt2(t):
        for i, e in enumerate(t["ev"]):
            if e["k"] == "text" and any(x["k"] == "ref" and x["kind"] == e["kind"] and x["h"] == e["h"] for x in t["ev"]):
                t["ev"].pop(i); return t
        return None
    ctx.judge("RefTrace", "RefTrace.cfg", ref_tr, "references", selftest=corrupt2)
    ctx.assumptions += ["texts with equal hashes are not exercised (the hash is a 32-bit CRC)", "the sender is held by holding its 100 ms idle sleep; a refusal is accepted only while it is held"]
