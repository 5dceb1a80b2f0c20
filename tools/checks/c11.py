"""C11: service-name patterns match exactly the names their wildcards describe."""
import itertools
from vlib import *

def words(alpha, n):
    return ["".join(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]

def in_scope(p):
    return sum(1 for i, c in enumerate(p) if c == "*" and i not in (0, len(p) - 1)) <= 1

def run(ctx):
    ctx.build("unit")
    rng = ctx.rng
    a = ctx.agent(name="unit", udp=False)
    def ask(q):
        try:
            return a.call("pattern", q=q, timeout=200)["r"]
        except Died as d:
            if d.agent_fault(): raise Violation("matching a name panics", {"stderr": d.stderr[-3000:], "queries": q[:5]})
            raise
    traces = []
    # every pattern of the form over two letters, against every name
    n = 7
    names = words("ab", n)
    pats = [p for p in words("ab*", ctx.pick(6, 8)) if in_scope(p)]
    for i in range(0, len(pats), 50):
        chunk = pats[i:i + 50]
        ev = []
        for p, r in zip(chunk, ask([{"list": p, "names": names} for p in chunk])):
            ev.append({"k": "all", "n": n, "p": list(p), "hits": [list(s) for s, b in zip(names, r) if b == "1"]})
        traces.append({"id": "all-%s" % chunk[0], "ev": ev})
    ctx.count("patterns_enumerated", len(pats)); ctx.count("names_enumerated", len(names))
    # lists of realistic patterns: names are built from their parts, whole, cut,
    # repeated and overlapping
    parts = ["/api", "/v1", "a", "aa", "aba", "/", "order", ".js", "GET", "<GET>", "é", "한", " ", "?", "[x]", "\\d", "%", "**"[:1] + "x", ""]
    parts = [p for p in parts if "*" not in p]
    def lit(): return "".join(rng.choice(parts) for _ in range(rng.choice([0, 1, 1, 2, 3])))
    def pat():
        x = lit()
        if rng.random() < 0.6: x += "*" + lit()
        if rng.random() < 0.4: x = "*" + x
        if rng.random() < 0.4: x += "*"
        return x
    def name(ps):
        p = rng.choice(ps)
        out = ""
        for c in p.split("*"):
            out += c
            x = rng.random()
            if x < 0.4: out += lit()
            elif x < 0.5: out += c
        x = rng.random()
        if x < 0.15: out = out[1:]
        elif x < 0.3: out = out[:-1]
        elif x < 0.4: out += rng.choice("ax/*,")
        elif x < 0.45: out = rng.choice("ax/*") + out
        elif x < 0.5 and len(out) > 2: k = rng.randrange(len(out)); out = out[:k] + out[k + 1:]
        elif x < 0.52: out = ""
        return out
    for i in range(ctx.pick(30, 600)):
        qs = []
        for _ in range(40):
            ps = [p for p in [pat() for _ in range(rng.choice([1, 1, 2, 3, 5]))] if in_scope(p)] or ["a"]
            if rng.random() < 0.1: ps.insert(rng.randrange(len(ps) + 1), "")
            qs.append((ps, [name(ps) for _ in range(6)]))
        ev = []
        for (ps, ns), r in zip(qs, ask([{"list": ",".join(ps), "names": ns} for ps, ns in qs])):
            for s, b in zip(ns, r):
                ev.append({"k": "one", "ps": [list(p) for p in ps], "s": list(s), "r": b == "1"})
        traces.append({"id": "lists%d" % i, "ev": ev})
    # long lists, and long patterns
    for i in range(ctx.pick(2, 20)):
        qs = []
        for n in (30, 65, 130, 300, 1100):
            ps = ["%s%d" % (rng.choice(["/no*such", "none", "*zz/q", "q*"]), j) for j in range(n)]
            for at in {rng.randrange(n), n - 1, 0}: ps[at] = "/found%d*x" % at
            hit = [p.replace("*", "-") for p in ps if p.startswith("/found")]
            qs.append((ps, hit + ["/found", "x", ""]))
        for n in (255, 256, 300, 1030):
            w = "".join(rng.choice("abc") for _ in range(n))
            for p in (w, w + "*", "*" + w, "*" + w + "*", w[:n // 2] + "*" + w[n // 2:]): qs.append(([p], [w, w[:-1], w[1:], "x" + w, w + "x", w[:-1] + "x"]))
        ev = []
        for (ps, ns), r in zip(qs, ask([{"list": ",".join(ps), "names": ns} for ps, ns in qs])):
            for s, b in zip(ns, r): ev.append({"k": "one", "ps": [list(p) for p in ps], "s": list(s), "r": b == "1"})
        traces.append({"id": "long%d" % i, "ev": ev})
    a.close()
    def models():
        ctx.model("PatternMC", "PatternMC.cfg", workers=3, expect_actions=["GrowP", "Turn", "GrowS"])
        ctx.refute("PatternMC", "PatternMC_loose.cfg")
        if ctx.thorough: ctx.model("PatternMC", "PatternMC_big.cfg", workers=6, timeout=3000)
    models()
    k = [0]
    def corrupt(t):
        k[0] += 1
        e = t["ev"][k[0] * 11 % len(t["ev"])]
        if e["k"] == "one": e["r"] = not e["r"]
        elif e["hits"]: e["hits"].pop()
        else: e["hits"] = [["a", "b", "a", "b", "a"]]
        return t
    ctx.judge("PatternTrace", "PatternTrace.cfg", traces, "pattern answers", selftest=corrupt, timeout=1500)
    ctx.assumptions += ["patterns with more than one inner star are not constrained", "names and literals are sequences of characters (valid UTF-8)"]
