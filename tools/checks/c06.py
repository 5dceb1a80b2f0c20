"""C06: accepted packs reach the collector intact, once, in bounded datagrams."""
import hashlib, struct, zlib
from progs import *

def fill(m, n):
    if n <= len(m): return m
    out, ln, i = [m], len(m), 0
    while ln < n:
        x = "%x;" % (i * 40503); out.append(x); ln += len(x); i += 1
    return "".join(out)[:n]

def body(op):
    if op.get("fill"): return fill(op["m"], op["fill"])
    return op["m"]

def sig(op):
    """what the pack of an operation must be at the collector"""
    t = body(op)
    return "%s:%d:%08x" % (op["m"], len(t), zlib.crc32(("%s|%s" % (op["k"], t)).encode()))

def sig_of(p, tag):
    if p["p"] == "text" and tag in p["text"]:
        k, t = p["type"], p["text"]
    elif p["p"] == "map" and len(p["m"]) == 1:
        k, t = list(p["m"].items())[0]
        if not isinstance(t, bytes): return None
        t = t.decode("latin-1")
        if tag not in t: return None
    else: return None
    return "%s:%d:%08x" % (t[:t.index("#") + 1], len(t), zlib.crc32(("%s|%s" % (k, t)).encode()))

def dgrams(dg, tag, isdirect, errs):
    """events of the datagrams and the queued packs in the order they were complete"""
    ev, wirel, frags = [], [], {}
    def arrived(encs):
        ps, ds = [], []
        for x in encs:
            r = wire.Rd(x)
            try:
                p = wire.pack(r)
                if not r.end(): raise wire.WireError("trailing bytes")
            except (wire.WireError, UnicodeDecodeError) as e:
                errs.append("%s: %s" % (e, x[:60].hex())); continue
            s = sig_of(p, tag)
            if s is None: continue
            if isdirect(s): ds.append(s)
            else: ps.append(s); wirel.append(s)
        return ps, ds
    for q, b in datagrams(dg):
        t = b[:4]
        if t == b"CAFE":
            ps, ds = arrived([b[4:]])
            ev.append((q, {"k": "one", "bytes": len(b) - 4, "ps": ps, "ds": ds}))
        elif t == b"CAFN":
            n = struct.unpack(">h", b[4:6])[0]
            r, encs = wire.Rd(b[6:]), []
            try:
                while not r.end():
                    s = r.o; wire.pack(r); encs.append(r.b[s:r.o])
            except wire.WireError as e: errs.append("batch: %s" % e)
            ps, ds = arrived(encs)
            ev.append((q, {"k": "batch", "bytes": len(b) - 6, "count": n, "n": len(encs), "ps": ps, "ds": ds}))
        elif t == b"CAFM":
            r = wire.Rd(b, 4); r.i32(); pk = r.i64(); total = r.i16(); num = r.i16(); d = r.blob()
            if not r.end(): errs.append("fragment with trailing bytes")
            f = frags.setdefault(pk, {})
            f[num] = d
            ps, ds = arrived([b"".join(f[i] for i in sorted(f))]) if len(f) == total else ([], [])
            last = ev[-1][1] if ev else {}
            if last.get("k") == "frag" and last["pk"] == str(pk) and last["total"] == total and last["to"] + 1 == num and not last["ps"] and not last["ds"]:
                last.update(to=num, bytes=max(last["bytes"], len(d)), ps=ps, ds=ds)
                ev[-1] = (q, last)
            else:
                ev.append((q, {"k": "frag", "pk": str(pk), "total": total, "from": num, "to": num, "bytes": len(d), "ps": ps, "ds": ds}))
        else: errs.append("unknown datagram %r" % b[:8])
    return ev, wirel

def trace(tid, tag, evs, dg, lims, Q, marks):
    errs = []
    directs = {sig(e) for e in evs if e["o"] == "direct" or (e["o"] == "bigpack" and e.get("direct"))}
    de, wl = dgrams(dg, tag, lambda s: s in directs, errs)
    if errs: raise Violation("the agent sends what the collector cannot decode: %s" % errs[0], {"id": tid, "errors": errs[:10]})
    items = list(de)
    for e in evs:
        if e["o"] in ("pack", "bigpack") and not e.get("direct"):
            items.append((e["i"], {"k": "offer", "th": e["th"], "p": sig(e)}))
            items.append((e["q"], {"k": "offered", "th": e["th"], "acc": e.get("acc", "?")}))
        elif e["o"] in ("direct", "bigpack"):
            items.append((e["i"], {"k": "direct", "p": sig(e)}))
        elif e["o"] == "nop" and "mark" in e:
            items.append((e["q"], e["mark"]))
    items.sort(key=lambda z: z[0])
    return {"id": tid, "q": Q, "lims": lims, "wire": wl, "ev": [x for _, x in items] + [{"k": "quiet"}]}

def run(ctx):
    ctx.build("agent")
    out = []
    def worker(k):
        rng = random.Random(ctx.seed * 131 + k)
        Q = [30000, 4, 30000, 6, 1, 30000, 30000, 17][k]
        limit = [60000, 200, 1, 64, 500, 1400, 300, 65000][k]
        a = start_agent(ctx, conf={"send_queue_size": Q, "udp_max_bytes": limit}, timeout=25)
        a.call("freezenow")
        n = [0]
        cur = [limit]
        def op(tag, lim, direct=False, big=False, least=None):
            n[0] += 1
            m = "%s%d#" % (tag, n[0])
            o = {"o": "direct" if direct else "pack", "k": rng.choice("ab"), "h": rng.randrange(-5, 5), "m": m}
            over = 12        # bytes of a text record beside its text
            if big:
                o.update(o="bigpack", direct=direct, fill=rng.choice([lim * 3 + 1, 100001, 300000, 1000000]))
                if o["fill"] // lim > 32000: o["fill"] = lim * 3000
                return o
            size = rng.choice([0, 0, 0, lim // 4, lim // 3, lim // 2, lim - over + rng.randrange(-4, 6), lim * 2 + rng.randrange(-14, 14), lim * rng.randrange(1, 6), lim + rng.randrange(-20, 40), rng.randrange(1, 2 * lim + 2)])
            if lim < 64: size = rng.choice([0, 0, rng.randrange(0, 40), rng.randrange(0, 300)])
            o["fill"] = max(0, min(size, 95000, 3000 * (least or lim)))
            return o
        def setlimit(v, settle=True):
            a.call("conf", text=a.text(dict(a.base, send_queue_size=Q, udp_max_bytes=v)))
            if settle:
                a.call("resume")
                for t in range(60):     # until a probe is cut at the new limit
                    time.sleep(0.05)
                    a.call("seq", ops=[{"o": "direct", "k": "p", "h": 1, "m": "probe%d#" % t, "fill": min(2 * v + 100, 95000)}])
                    r = a.call("ping", quiesce=True, take=True)
                    if max([e["bytes"] for q, e in dgrams(r["dg"], "probe%d#" % t, lambda s: True, [])[0] if e["ds"] or e["k"] == "frag"] + [0]) == v: break
                ctx.count("limit_probes", t + 1)
                a.call("pause", ms=900); time.sleep(0.02)
                a.call("ping", quiesce=True, take=True)
                cur[0] = v
        def go(tid, tag, lims, flow):
            a.call("reset")
            try: flow()
            except Died as d:
                if "did not answer" in d.why: raise Violation("offering a pack blocks the caller", {"id": tid, "stacks": d.stderr[-6000:]})
                raise
            r = a.call("ping", quiesce=True, take=True)
            if not r.get("mark"):       # perhaps it is the marker that was cut up wrongly: it follows what was queued before it, whole
                a.call("conf", text=a.text(dict(a.base, send_queue_size=Q, udp_max_bytes=60000)))
                a.call("resume"); time.sleep(1)
                r2 = a.call("ping", quiesce=True, take=True)
                if not r2.get("mark"): raise Violation("what is queued is not sent any more", {"id": tid, "limit": lims})
                a.call("pause", ms=900)
                r["ev"] += r2["ev"]; r["dg"] += r2["dg"]; lims = lims + [60000]
                cur[0] = 60000
            if a.drops(): raise CheckError("the receiver lost datagrams")
            out.append(trace(tid, tag, sorted(r["ev"], key=lambda e: e["q"]), r["dg"], lims, Q, None))
        def seq(ops):
            for i in range(0, len(ops), 50): a.call("seq", ops=ops[i:i + 50])
        def held(ops, ms=900):
            a.call("pause", ms=90); time.sleep(0.02)
            seq(ops)
            a.call("pause", ms=900)
        for i in range(ctx.pick(36, 800)):
            tag = "<%d.%d>" % (k, i)
            if i % 9 == 8:           # a change of the limit, observed from before its effect
                old, new = cur[0], rng.choice([1, 7, 64, 100, 333, 1400, 9000, 60000, 65000])
                ops = [op(tag, min(old, new) if rng.random() < 0.6 else max(old, new), least=min(old, new)) for _ in range(rng.randrange(3, 14))]
                setlimit(new, settle=False)
                go("reconf%d-%d" % (k, i), tag, [old, new], lambda: held(ops))
                setlimit(new)
                continue
            lim = cur[0]
            if i % 9 in (0, 1, 2):
                ops = [op(tag, lim, direct=rng.random() < 0.15) for _ in range(rng.randrange(1, min(40, Q * 3)))]
                go("held%d-%d" % (k, i), tag, [lim], lambda: held(ops))
            elif i % 9 in (3, 4):
                ops = [op(tag, lim) for _ in range(rng.randrange(1, 30))]
                # a running sender takes what there is at any time
                go("run%d-%d" % (k, i), tag, [lim], lambda: seq(ops))
            elif i % 9 == 5 and lim >= 64:
                ops = [op(tag, lim, big=rng.random() < 0.4, direct=rng.random() < 0.2) for _ in range(rng.randrange(1, 6))]
                go("big%d-%d" % (k, i), tag, [lim], lambda: held(ops))
            else:
                hold = rng.random() < 0.4
                ths = [[op(tag, lim, direct=rng.random() < 0.15) for _ in range(rng.randrange(1, 5))] for _ in range(rng.choice([2, 3]))]
                mode = rng.choice(["pct", "walk", "free"])
                kw = {"pct": {"depth": rng.choice([2, 3]), "len": rng.choice([15, 60])}, "walk": {"stay": rng.choice([0, 128])}}.get(mode, {})
                def flow():
                    if hold: a.call("pause", ms=90); time.sleep(0.02)
                    r0 = a.call("par", threads=ths, mode=mode, seed=rng.randrange(1 << 30), **kw)
                    if r0.get("dead") or r0.get("stalled"): raise Violation("offering a pack blocks the caller", {"threads": ths, "result": r0})
                    a.call("pause", ms=900)
                go("par%d-%d-%s" % (k, i, mode), tag, [lim], flow)
                ctx.count("schedules")
        a.close()
    def models():
        acts = ["Offer", "Look", "Take", "Flush"]
        ctx.model("Udp", "UdpMC.cfg", workers=2, expect_actions=acts)
        ctx.model("Udp", "UdpMC_raise.cfg", workers=2, expect_actions=acts)
        ctx.model("Udp", "UdpMC_lower.cfg", workers=2, expect_actions=acts)
        ctx.model("Udp", "UdpMC_live.cfg", workers=2)
        ctx.refute("Udp", "UdpMC_overtake.cfg")
        if ctx.thorough: ctx.model("Udp", "UdpMC_big.cfg", workers=6, timeout=3000, heap="12g")
    parallel([models] + [lambda k=k: worker(k) for k in range(8)], 9)
    n = [0]
    def corrupt(t):
        n[0] += 1
        ws = [i for i, e in enumerate(t["ev"]) if e["k"] in ("one", "batch", "frag")]
        if not ws: return None
        i = ws[n[0] * 7 % len(ws)]
        c = n[0] % 4
        if c == 0:
            if not (t["ev"][i]["ps"] or t["ev"][i]["ds"]): return None
            t["ev"].pop(i)
        elif c == 1: t["ev"][i]["bytes"] = max(t["lims"] + [e["v"] for e in t["ev"] if e["k"] in ("limit", "settled")]) + 1
        elif c == 2:
            if not t["ev"][i]["ps"]: return None
            t["ev"].insert(i, json.loads(json.dumps(t["ev"][i])))
        else:
            if len(t["wire"]) < 2: return None
            t["wire"][0], t["wire"][1] = t["wire"][1], t["wire"][0]
        return t
    ctx.judge("UdpTrace", "UdpTrace.cfg", out, "datagrams", selftest=corrupt)
    ctx.assumptions += ["the datagram limit is what UDP can carry (at most 65,000 bytes) and a pack needs at most 32,767 fragments",
                        "packs in flight at the moment the UDP client is replaced are not exercised",
                        "the sender is held by holding its 100 ms idle sleep; datagrams are received over loopback without loss (the drop counter is checked)"]
