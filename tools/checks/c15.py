"""C15: the wire format round-trips and its decoder is total."""
import struct
from vlib import *

INTS = sorted({s * (1 << k) + d for s in (1, -1) for k in (0, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 55, 62, 63) for d in (-1, 0, 1)} | {0})
LENS = [0, 1, 2, 3, 9, 127, 128, 251, 252, 253, 254, 255, 256, 257, 600]
BIG = [32767, 32768, 40000, 65534, 65535, 65536, 65537, 99999, 100000, 100001, 150000]
XTYPES = ["dec", "d32", "d32", "i64", "i64", "i64", "d32", "d32", "d32", "d32", "d32", "blob", "d32", "d32", "dec", "d32", "d32", "d32",
          "d32", "d32", "str", "d32", "u8", "d32", "d32", "d32", "d32", "u8", "d32", "str", "str", "d32", "d32", "d32", "d32",
          "str", "str", "str", "d32", "bool", "d32", "u8", "bool"]
PACKS = {"map": ["pairs"], "text": ["str", "i32", "str"], "alert": ["i64", "u8", "str", "i32", "str", "str", "map"],
         "object": ["str", "d32", "str", "str", "str", "bool", "dec", "map"], "object2": ["str", "str", "d32", "str", "str", "str", "bool", "dec", "u8", "map"],
         "perf": ["i64", "str", "u8", "map"], "profile": ["dec", "d32", "d32", "i64", "blob"], "xlog": XTYPES}
STEPS = {"method": ["d32", "d32", "d32"], "message": ["str"], "api": ["dec", "d32", "d32", "d32", "d32", "opt", "str"], "hashed": ["d32", "d32", "d32"],
         "async": ["dec", "d32", "d32"], "pmessage": ["d32", "d32", "lev", "params"]}
READS = {"map", "object", "object2", "perf"}          # packs the agent has a reader for

def nhex(x, n): return (x & ((1 << (8 * n)) - 1)).to_bytes(n, "big").hex()

class Gen:
    def __init__(self, rng): self.rng = rng
    def int(self, bits=64):
        r = self.rng
        while True:
            x = r.choice(INTS) if r.random() < 0.7 else r.randrange(-(1 << 63), 1 << 63) >> r.randrange(0, 63)
            if -(1 << (bits - 1)) <= x < 1 << (bits - 1): return x
    def bytes(self, big=0.0):
        r = self.rng
        n = r.choice(BIG) if r.random() < big else r.choice(LENS) if r.random() < 0.3 else r.randrange(0, 8)
        if n > 600: return bytes([r.randrange(256)]) * (n - 1) + bytes([r.randrange(256)])
        return bytes(r.choice([r.randrange(256), 0, 255, 254, 70, 80]) for _ in range(n))
    def text(self, big=0.0):
        r = self.rng
        if r.random() < 0.4: return r.choice(["", "service", "한글", "\u0000", "a b\n", "é" * 127, "x" * 253, "x" * 254]).encode()
        return self.bytes(big)
    def leaf(self, big=0.0):
        r = self.rng
        t = r.choice(["go", "null", "bool", "dec", "dec", "dec", "f32", "f64", "text", "text", "hash", "blob", "ip4"])
        if t in ("go", "null"): return {"t": t}
        d = {"bool": lambda: r.choice(["00", "01"]), "dec": lambda: nhex(self.int(), 8), "f32": lambda: self.f32(), "f64": lambda: nhex(self.int(), 8) if r.random() < .5 else struct.pack(">d", r.uniform(-9, 9)).hex(),
             "text": lambda: self.text(big).hex(), "hash": lambda: nhex(self.int(32), 4), "blob": lambda: self.bytes(big).hex(),
             "ip4": lambda: bytes(r.randrange(256) for _ in range(4)).hex()}[t]()
        if t == "f64" and int(d, 16) & 0x7ff0000000000000 == 0x7ff0000000000000: d = "7ff8000000000000"
        return {"t": t, "d": d}
    def f32(self):
        x = struct.pack(">f", self.rng.choice([0.0, -0.0, 1.5, -3.25, 1e30, float("inf"), self.rng.uniform(-1e6, 1e6)]))
        return x.hex()
    def plain(self, kinds):
        """a value handed over as a plain Go value"""
        r = self.rng
        via = r.choice(kinds)
        if via in ("int", "int64"): return {"t": "dec", "via": via, "d": nhex(self.int(), 8)}
        if via == "int32": return {"t": "dec", "via": via, "d": nhex(self.int(32), 8)}
        if via == "uint32": return {"t": "dec", "via": via, "d": nhex(self.int(33) & 0xffffffff, 8)}
        if via in ("uint", "uint64"): return {"t": "dec", "via": via, "d": nhex(self.int() & (1 << 63) - 1, 8)}
        if via == "float": return {"t": "f32", "via": via, "d": self.f32()}
        if via == "bool": return {"t": "bool", "via": via, "d": r.choice(["00", "01"])}
        return {"t": "text", "via": via, "d": self.text().hex()}
    MV = ["string", "int", "int32", "int64", "bool", "float"]
    def value(self, depth=3, big=0.0):
        r = self.rng
        x = r.random()
        if depth == 0 or x < 0.55: return self.leaf(big)
        if x < 0.78:
            return {"t": "list", "e": [self.plain(["int64", "int32", "float", "string", "bool"]) if r.random() < .2 else self.value(depth - 1)
                                       for _ in range(r.choice([0, 1, 2, 3, 5]))]}
        return self.map(depth)
    def map(self, depth=2, more=()):
        r = self.rng
        kv = {}
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            v = self.plain(self.MV + list(more)) if r.random() < .4 else self.value(depth - 1)
            if v["t"] == "go": v = {"t": "null"}
            kv[self.text().hex()] = v
        return {"t": "map", "kv": [[k, v] for k, v in kv.items()]}
    def field(self, ty, big=0.0):
        r = self.rng
        if ty in ("dec", "i64", "u64"): return nhex(self.int(), 8)
        if ty == "f64": return struct.pack(">d", r.uniform(-1e9, 1e9)).hex()
        if ty == "f32": return self.f32()
        if ty in ("d32", "i32"): return nhex(self.int(32), 4)
        if ty == "dec32": return nhex(self.int(32), 8)
        if ty == "i16": return nhex(self.int(16), 2)
        if ty in ("u8", "i8"): return nhex(r.choice([0, 1, 2, 99, 127, 128, 255]), 1)
        if ty == "opt": return r.choice(["00", "01", "01"])
        if ty == "lev": return nhex(r.randrange(0, 5), 4)
        if ty == "bool": return r.choice(["00", "01"])
        if ty == "str": return self.text(big).hex()
        if ty in ("blob", "intbytes"): return self.bytes(big).hex()
        if ty == "value": return self.value(2)
        if ty == "map": return self.map(2)
        if ty == "pairs": return self.map(3, more=["uint32", "uint", "uint64"])
        if ty == "params": return [bytes(b for b in self.text()).hex() for _ in range(r.choice([0, 0, 1, 2]))]

# ---------------------------------------------------------------- hex -> bytes of the spec
def bs(h): return list(bytes.fromhex(h))
def sval(v):
    t = v["t"]
    if t == "list": return {"t": t, "e": [sval(x) for x in v["e"]]}
    if t == "map": return {"t": t, "kv": [[bs(k), sval(x)] for k, x in v["kv"]]}
    if "d" in v: return {"t": t, "d": bs(v["d"])}
    return {"t": t}
def sfield(x): return sval(x) if isinstance(x, dict) else bs(x)
def srec(p, f):
    xs = [sfield(x) for x in f]
    return [xs] if p == "xlog" else xs
def sstep(p, f):
    f = list(f)
    if p == "pmessage": f[7] = "".join(x + "03" for x in f[7])
    if p == "async": f.append("01")
    return [sfield(x) for x in f]

def run(ctx):
    ctx.build("unit")
    rng = ctx.rng
    g = Gen(rng)
    a = ctx.agent(name="unit", udp=False)
    def ask(ops):
        try:
            r = a.call("codec", ops=ops, timeout=ctx.pick(120, 300))["r"]
        except Died as d:
            if d.agent_fault() or "did not answer" in d.why and "/netdata." in d.stderr:
                raise Violation("the codec %s" % ("crashes the process" if d.agent_fault() else "does not come to an end"),
                                {"why": d.why, "stderr": d.stderr[-3000:], "ops": shorten({"ev": ops}, 3)})
            raise
        for o, x in zip(ops, r):
            if x.get("panic"): raise Violation("the codec panics: %s" % x["panic"], {"op": o})
        return r
    def step():
        p = rng.choice(list(STEPS))
        f = [g.field("d32") for _ in range(3)] + ["00000000"] + [g.field(t) for t in STEPS[p]]
        if p == "api" and f[9] == "00" and rng.random() < .5: f[10] = ""
        return p, f
    def pieces():
        return rng.choice([None, [1], [1, 2, 3], [0, 1], [7], [0, 3, 100], [4096], [1, 1000]])
    def contents(p, v):
        return srec(p, v)
    traces, ntree = [], 0
    def batch(tag, objs, cuts=6, junk=8):
        """objs: [(kind, p, layout, content)]: written, read back, cut and mangled"""
        nonlocal traces
        enc = []
        for kind, p, lay, v in objs:
            if kind == "value": enc.append({"op": "enc", "kind": "value", "v": v})
            elif kind == "rec": enc.append({"op": "enc", "kind": "step" if p in STEPS else "pack", "p": p, "v": v})
            elif kind == "steps": enc.append({"op": "enc", "kind": "steps", "v": [{"p": q, "v": f} for q, f in v]})
            else: enc.append({"op": "enc", "kind": "fields", "v": [[t, x] for t, x in zip(lay, v)], "writer": rng.random() < .3})
        encs = ask(enc)
        ev = []
        dec, meta = [], []
        for (kind, p, lay, v), r in zip(objs, encs):
            base = {"kind": kind}
            if kind == "rec": base["p"] = p
            if kind == "fields": base["layout"] = lay
            sv = sval(v) if kind == "value" else (sstep(p, v) if p in STEPS else contents(p, v)) if kind == "rec" else [[q, sstep(q, f)] for q, f in v] if kind == "steps" else [sfield(x) for x in v]
            b = r["b"]
            ev.append(dict(base, k="enc", v=sv, b=bs(b), size=r.get("size", len(b) // 2)))
            if kind == "steps" or kind == "rec" and p not in READS: continue
            rk = {"value": "value", "fields": "fields", "rec": "object" if p == "object" else "pack"}[kind]
            q = {"op": "dec", "kind": rk}
            if kind == "fields": q["layout"] = [[t, 0] for t in lay]
            n = len(b) // 2
            tail = bytes(rng.randrange(256) for _ in range(4)).hex()
            for pc in {json.dumps(pieces()) for _ in range(2)}:
                d = dict(q, b=b + tail, tail=4, eof=rng.random() < .5, pieces=json.loads(pc), gets=kind == "value" or p == "map")
                dec.append(d); meta.append(("dec", base, b, tail))
            if n > 0 and n < 3000:
                ns = list(range(n)) if n <= 60 else sorted(rng.sample(range(n), min(n, 40)))
                dec.append(dict(q, op="cuts", b=b, ns=ns, pieces=pieces(), eof=rng.random() < .5)); meta.append(("cuts", base, b, None))
                raw = bytes.fromhex(b)
                for _ in range(junk):
                    m = bytearray(raw)
                    x = rng.random()
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        i = rng.randrange(len(m))
                        y = rng.random()
                        if y < .6: m[i] = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 20, 70, 80, 127, 128, 253, 254, 255, rng.randrange(256)])
                        elif y < .8: del m[i]
                        else: m.insert(i, rng.choice([0, 1, 8, 254, 255]))
                        if not m: break
                    m = bytes(m)
                    dec.append(dict(q, b=m.hex(), pieces=pieces())); meta.append(("junk", base, m.hex(), None))
        for (what, base, b, tail), r in zip(meta, ask(dec) if dec else []):
            x = dict(base, k=what, b=bs(b))
            def cont(r):
                if base["kind"] == "value": return sval(r["v"])
                if base["kind"] == "fields": return [sfield(y) for y in r["v"]]
                if r["v"] is None or r["p"] != base["p"]: return ["agent read a %s" % r["p"]]
                return contents(r["p"], r["v"])
            if what == "cuts":
                x["oks"] = [{"n": o["n"], "v": cont(o)} for o in r["oks"] if o["ok"]]
            else:
                x["ok"] = r["ok"]
                if r["ok"]:
                    if base["kind"] == "rec" and r["p"] != base["p"]:
                        # another kind of pack after mangling the type byte
                        if r["p"] not in READS: continue
                        x["p"] = r["p"]; x["v"] = contents(r["p"], r["v"])
                    else:
                        x["v"] = cont(r)
                    if what == "dec":
                        x["tail"] = bs(tail)
                        x["rest"] = [] if r["tail"] == "error" else bs(r["tail"])
                        if "g" in r:
                            m = x["v"] if base["kind"] == "value" else x["v"][0]
                            ev.append({"k": "gets", "v": m, "g": [[bs(y[0]), bs(y[1]), y[2]] + [bs(z) for z in y[3:]] for y in r["g"]]})
            ev.append(x)
        traces.append({"id": tag, "ev": ev})
        ctx.count("objects_round_tripped", len(objs)); ctx.count("byte_strings_decoded", len(meta))
    # every scalar at every boundary
    batch("ints", [("value", None, None, {"t": "dec", "d": nhex(x, 8)}) for x in INTS if -(1 << 63) <= x < 1 << 63], junk=2)
    batch("int32", [("fields", None, ["dec32", "i32"], [nhex(x, 8), nhex(x, 4)]) for x in INTS if -(1 << 31) <= x < 1 << 31], junk=1)
    batch("small", [("fields", None, ["i8", "u8", "i16"], [nhex(x, 1), nhex(x, 1), nhex(x * 129, 2)]) for x in range(-128, 256, ctx.pick(7, 1))], junk=1)
    batch("lengths", [("value", None, None, {"t": t, "d": (bytes([i % 251 for i in range(n)])).hex()}) for n in range(0, 300, 1 if ctx.thorough else 13) for t in ("text", "blob")] +
                     [("value", None, None, {"t": t, "d": (bytes([i % 251 for i in range(n)])).hex()}) for n in (252, 253, 254, 255, 256) for t in ("text", "blob")], junk=1)
    for n in BIG:
        d = (bytes([i % 251 for i in range(min(n, 255))]) * (n // 255 + 1))[:n].hex()
        batch("big%d" % n, [("value", None, None, {"t": t, "d": d}) for t in ("text", "blob")] + [("fields", None, ["intbytes", "str", "blob"], [d, d, d]),
              ("rec", "profile", None, [nhex(1, 8), nhex(2, 4), nhex(3, 4), nhex(4, 8), d])])
    for n in [126, 127, 128, 129, 255, 256, 300] + ctx.pick([], [32767, 32768, 33000]):
        batch("count%d" % n, [("value", None, None, {"t": "list", "e": [{"t": "dec", "d": nhex(i % 3, 8)} for i in range(n)]}),
                              ("value", None, None, {"t": "map", "kv": [[nhex(i, 2), {"t": "null"}] for i in range(min(n, 1000))]}),
                              ("rec", "map", None, [{"t": "map", "kv": [[nhex(i, 2), {"t": "bool", "d": "01"}] for i in range(min(n, 1000))]}])], junk=1)
    def nest(d):
        v = {"t": "text", "d": "6162"}
        for i in range(d): v = {"t": "list", "e": [v]} if i % 2 else {"t": "map", "kv": [["6b", v]]}
        return v
    batch("nested", [("value", None, None, nest(d)) for d in (1, 5, 20, 60, 90)], junk=4)
    # wide ones: many values beside each other are not deep
    wide = [{"t": "list", "e": [{"t": "null"}] * 700 + [{"t": "list", "e": [{"t": "list", "e": []}] * 3}] * 120}, {"t": "list", "e": [{"t": "dec", "d": nhex(1, 8)}] * 1200}]
    batch("wide", [("value", None, None, v) for v in wide] + [("fields", None, ["value"] * 3, [{"t": "list", "e": [{"t": "null"}] * 400}] * 3),
          ("rec", "map", None, [{"t": "map", "kv": [["61", wide[0]], ["62", wide[1]]]}])], junk=2)
    # random trees, records and field sequences
    for i in range(ctx.pick(16, 150)):
        batch("trees%d" % i, [("value", None, None, g.value(4)) for _ in range(12)])
        batch("packs%d" % i, [("rec", p, None, [g.field(t) for t in PACKS[p]]) for p in PACKS for _ in range(2)])
        ss = [step() for _ in range(10)]
        batch("steps%d" % i, [("rec", p, None, f) for p, f in ss] + [("steps", None, None, [step() for _ in range(rng.choice([0, 1, 3, 8]))])])
        F = ["i8", "u8", "bool", "i16", "i32", "i64", "u64", "f32", "f64", "dec", "dec32", "str", "blob", "intbytes", "value"]
        fs = []
        for _ in range(6):
            lay = [rng.choice(F) for _ in range(rng.choice([1, 2, 4, 7]))]
            fs.append(("fields", None, lay, [g.field(t) for t in lay]))
        batch("fields%d" % i, fs)
    # arbitrary bytes: short ones over the interesting alphabet, hostile counts and lengths, deep nesting
    AL = [0, 1, 2, 3, 4, 8, 10, 20, 30, 50, 51, 60, 61, 70, 80, 127, 128, 253, 254, 255]
    def words(n): return [bytes(w) for k in range(n + 1) for w in __import__("itertools").product(AL, repeat=k)]
    ws = words(ctx.pick(2, 3))
    ws += [bytes(rng.choice(AL) for _ in range(rng.choice([3, 4, 5, 6, 9, 14, 25]))) for _ in range(ctx.pick(1500, 20000))]
    ws += [bytes.fromhex(h) for h in ("4604ffffffff", "46087fffffffffffffff", "5008ffffffffffffffff", "50047fffffff", "5001ff", "32fe7fffffff", "32fe80000000",
           "3cffffff", "3cffffff00", "32feffffffff61", "4608ffffffffffffffff00", "0a0afe7fffffff", "0a047fffffff", "3cfe000000", "3cff00", "3dff", "46018032", "5000", "500101610a")]
    ws += [bytes([70, 1, 1]) * 100000 + b"\0", bytes([80, 1, 1, 1, 97]) * 60000, bytes([70, 1, 127]) * 200, bytes([70, 2, 127, 255]) * 50 + bytes(5000), b"\x46\x08" + b"\x00\x00\x7f" + b"\xff" * 5 + b"\0" * 2000]
    for lo in range(0, len(ws), 400):
        for kind in ("value", "pack"):
            part = ws[lo:lo + 400]
            ev = []
            for w, r in zip(part, ask([{"op": "dec", "kind": kind, "b": w.hex(), "pieces": pieces(), "eof": rng.random() < .5} for w in part])):
                if kind == "pack" and r["ok"] and r["p"] not in READS: continue
                if r["ok"]:
                    if r["v"] is None: raise CheckError("undescribed pack %s" % r["p"])
                    ev.append({"k": "junk", "kind": "value", "b": list(w), "ok": True, "v": sval(r["v"])} if kind == "value" else
                              {"k": "junk", "kind": "rec", "p": r["p"], "b": list(w), "ok": True, "v": contents(r["p"], r["v"])})
            ctx.count("byte_strings_decoded", len(part))
            if ev: traces.append({"id": "junk-%s-%d" % (kind, lo), "ev": ev})
    a.close()
    # what a running agent puts on the wire
    real = realpacks(ctx, g)
    ev = [{"k": "canon", "b": list(b)} for b in real]
    if not ev: raise CheckError("the running agent sent nothing")
    traces += [{"id": "agent%d" % i, "ev": ev[i:i + 20]} for i in range(0, len(ev), 20)]
    ctx.count("agent_packs", len(ev))
    ctx.model("WireMC", "WireMC.cfg", workers=4, coverage=False)
    for v in ("narrow", "wide", "count"): ctx.refute("WireMC", "WireMC_%s.cfg" % v)
    if ctx.thorough: ctx.model("WireMC", "WireMC_big.cfg", workers=8, timeout=3000, coverage=False)
    k = [0]
    def corrupt(t):
        k[0] += 1
        c = [e for e in t["ev"] if e["k"] == "enc" and e["b"]]
        if not c: return None
        e = c[k[0] * 7 % len(c)]
        i = k[0] * 13 % len(e["b"])
        e["b"][i] = (e["b"][i] + 1) % 256
        return t
    ctx.judge("WireTrace", "WireTrace.cfg", traces, "wire format", selftest=corrupt, timeout=1500)
    ctx.assumptions += ["values nested at most 1,000 deep (the agent's reader refuses deeper ones)", "packs without a reader in the agent (text, alert, xlog, profile) and steps are read by the specification only",
                        "a Go float64 has no Put of its own"]

def realpacks(ctx, g):
    """encoded packs of a running agent: heartbeats, counters, texts, records, profiles, alerts"""
    ag = ctx.agent(conf={"profile_step_max_keep_in_memory_count": 7, "profile_step_max_count": 3, "profile_http_header_enabled": "true"})
    ag.call("scale", f=0.02)
    for i in range(ctx.pick(4, 30)):
        c = "c%d" % i
        t = [g.text().decode("utf-8", "replace") for _ in range(6)]
        ag.call("seq", ops=[
            {"o": "starthttp", "c": c, "req": {"url": "/w/%d" % i, "method": "GET", "addr": "10.2.3.4:5", "headers": {"User-Agent": "ua%d" % i, "Xa": "v"}}},
            {"o": "method", "c": c, "s": c + "m", "name": "m" + t[1]}, {"o": "msg", "c": c, "m": t[2]}, {"o": "pmsg", "c": c, "l": 2, "m": "pm", "t": 70000, "ps": [t[3], "b"]},
            {"o": "hmsg", "c": c, "m": "hm" + t[4], "v": -5, "t": 300}, {"o": "api", "c": c, "s": c + "a", "name": "api", "addr": "h" + t[5]},
            {"o": "endapi", "c": c, "s": c + "a", "err": "boom"}, {"o": "endmethod", "c": c, "s": c + "m"}, {"o": "endhttp", "c": c, "status": 500},
            {"o": "start", "c": c + "s", "name": t[0], "ip": "1.2.3.4"}, {"o": "go", "c": c + "s", "k": c + "g", "name": "go" + t[1], "body": [{"o": "msg", "c": c + "g", "m": "x"}]},
            {"o": "wait", "k": c + "g"}, {"o": "set", "c": c + "s", "f": "Text1", "v": t[2], "n": 0}, {"o": "end", "c": c + "s"}, {"o": "alert", "level": 1, "title": "t", "m": t[3]}])
    ra, out = wire.Reassembler(), []
    end = time.time() + 12
    while time.time() < end and not {21, 26, 50, 60, 80} <= {b[0] for b in out}:
        time.sleep(0.5)
        r = ag.call("ping", quiesce=True, take=True)
        out += [b for _, d in datagrams(r["dg"]) for b in ra.feed(d)]
    ag.close()
    if ra.errors: raise Violation("the agent's datagrams do not decode: %s" % ra.errors[:3])
    have = {b[0] for b in out}
    if not {21, 26, 50, 60, 80} <= have: raise CheckError("the running agent sent only packs of types %s" % sorted(have))
    return out
