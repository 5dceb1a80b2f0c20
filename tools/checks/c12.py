"""C12: configuration values, reloads and notifications are consistent."""
import re
from progs import *
import collector

def options():
    """option -> class, from the specification"""
    t = open(os.path.join(SPEC, "Conf.tla")).read()
    defs = {m.group(1): set(re.findall(r'"([a-z0-9_]+)"(?= :>)|"([a-z0-9_]+)"', m.group(2))) for m in re.finditer(r'^(Strs|Off|On|Sizes|Nums|Times) == (.*?)(?=^\S)', t, re.M | re.S)}
    out = {}
    for c, names in defs.items():
        for m in names:
            n = m[0] or m[1]
            if c in ("Off", "On") or m[0]: out[n] = c
    return out

OPT = options()
CONN = {"net_collector_ip", "net_collector_udp_port", "net_collector_tcp_port", "net_collector_tcp_so_timeout_ms", "net_collector_tcp_connection_timeout_ms", "obj_name"}
VARS = ["V%d" % i for i in range(5)]
NUMS = ["0", "1", "7", "+5", "-3", "-0", "007", "+0", "-00012", "100", "500", "4096", "60000", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967301", "9223372036854775807",
        "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "00000000000000000000000000000012", "99999999999999999999999", "", "abc", "1.5", "1e3", "0x10", "1_000", "12 ", " 12", "--1", "+", "-", "１２", "1 2", "5ms", "٣"]
BOOLS = ["true", "TRUE", "tRuE", "1", "yes", "Yes", "on", "ON", "oN", "false", "0", "no", "off", "y", "t", "2", " true", "true ", "truetrue", "", "enabled", "01", "yeS", "onn", "-1", "+1"]
STRS = ["", "x", "go2", "a b", "é한", "/api/*,/x/*", "a=b:c", "#no comment", "!x", "back\\slash", "tab\there", "two\nlines", "X-Forwarded-For", "%d", "{}", "}", "a" * 300, " lead", "trail ", "127.0.0.1", "*"]

class Gen:
    def __init__(self, rng, fixed=()):
        self.rng, self.fixed, self.small = rng, fixed, True
        self.opts = sorted(set(OPT) - set(fixed))
        self.mine = rng.sample(self.opts, 12)      # most edits are about these
    def lit(self, c):
        r = self.rng
        if c in ("Sizes", "Nums", "Times"): return r.choice(NUMS) if r.random() < 0.8 else str(r.randrange(-100, 100000))
        if c in ("Off", "On"): return r.choice(BOOLS)
        return r.choice(STRS)
    def value(self, c, env=False, var=None):
        """parts"""
        r = self.rng
        refs = VARS[var + 1:] if var is not None and env else VARS
        x = r.random()
        def L(s): return {"t": "lit", "s": list(s), "k": ""}
        # the buffers are made at the start: what they need must be there
        if self.small and c == "Sizes":
            return [L(r.choice([n for n in NUMS if len(n.strip("+-0")) < 6 or len(n) > 25]))]
        def R(): return {"t": "ref", "s": [], "k": r.choice(refs)}
        if var is not None:
            p = [L(self.lit(r.choice(["Nums", "Strs", "Off", "Times"])) or "v")]
            if refs and x < 0.35: p = r.choice([[R()], p + [R()], [R()] + p])
            return p
        if x < 0.75: return [L(self.lit(c))]
        if x < 0.85: return [R()]
        return r.choice([[L("1"), R()], [R(), L("2")], [L("t"), R(), L("e")], [R(), R()]])
    def lines(self, n):
        r, out = self.rng, []
        for _ in range(n):
            x = r.random()
            if x < 0.2:
                i = r.randrange(5)
                # (a file may well go round in a circle)
                out.append({"k": VARS[i], "v": self.value(None, r.random() < 0.93, i)})
            elif x < 0.25: out.append({"k": r.choice(["unknown_option", "OBJ_NAME", "obj_name2", "xlog"]), "v": self.value("Strs")})
            else:
                o = r.choice(self.mine if r.random() < 0.8 else self.opts)
                out.append({"k": o, "v": self.value(OPT[o])})
        if out and r.random() < 0.2:
            l = r.choice(out)
            out.append({"k": l["k"], "v": self.value(OPT.get(l["k"], "Strs"), True, VARS.index(l["k"]) if l["k"] in VARS else None)})
        return out
    def env(self):
        r, out = self.rng, []
        for i in range(5):
            if r.random() < 0.4: out.append({"k": VARS[i], "v": self.value(None, True, i)})
        for o in r.sample(self.opts, r.randrange(0, 10)) + r.sample(self.mine, 4):
            if any(l["k"] == o for l in out): continue
            v = self.value(OPT[o])
            if r.random() < 0.08: v = v + [{"t": "bad", "s": [], "k": ""}]
            out.append({"k": o, "v": v})
        return out
    # ---------------------------------------------------------------- text
    def chars(self, s, first, key=False):
        r, out = self.rng, []
        for i, c in enumerate(s):
            if c == "\\": x = "\\\\"
            elif c == "\n": x = "\\n"
            elif c == "\t": x = "\\t" if r.random() < 0.7 or (first and i == 0) else "\t"
            elif c == " " and (key or (first and i == 0)): x = "\\ "
            elif key and c in "=:#!": x = "\\" + c
            elif c in "=:" and r.random() < 0.3: x = "\\" + c
            elif r.random() < 0.02 and ord(c) < 0xd800: x = "\\u%04x" % ord(c)
            elif c in "xyzé*" and r.random() < 0.1: x = "\\" + c
            elif first and i == 0 and c in "=:": x = "\\" + c
            else: x = c
            if not key and i and r.random() < 0.01: x = "\\\n   " + (x if x[0] not in " \t" else "\\" + x)
            out.append(x)
        return "".join(out)
    def val(self, v):
        out = ""
        for p in v:
            out += self.chars("".join(p["s"]), not out) if p["t"] == "lit" else "${%s}" % p["k"] if p["t"] == "ref" else "${oops"
        return out
    def text(self, lines):
        r = self.rng
        nl = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
        out = []
        def noise():
            while r.random() < 0.15:
                out.append(r.choice(["", "# comment", "! another=one", "   # ${oops", "  ", "#" + "x" * 300, "\t"]) + nl)
        for l in lines:
            noise()
            v = self.val(l["v"])
            sep = r.choice(["=", "=", "=", " = ", ":", " : ", " ", "\t", "= "])
            if not v and r.random() < 0.3: sep = ""
            out.append(r.choice(["", "", "", " ", "\t "]) + self.chars(l["k"], True, True) + sep + v + nl)
        noise()
        t = "".join(out)
        if lines and t.endswith(nl) and r.random() < 0.2 and not t.endswith("\\" + nl): t = t[:-len(nl)]
        return t
    def content(self, kinds):
        """(text or None, the file's meaning)"""
        r = self.rng
        k = r.choice(kinds)
        if k == "bad":
            ls = self.lines(r.randrange(4))
            t = self.text(ls)
            if not t.endswith(("\n", "\r")): t += "\n"
            return t + r.choice(["=x\n", ":\n", "a\\u12G4=1\n", "b=\\uzzzz", "c=1\\", "obj_type=${obj_type}\n", "obj_type=x${oops\n", "V0=${V1}\nV1=${V2}\nV2=${V0}\n"]), {"st": "bad", "l": []}
        if k in ("none", "dir"): return None, {"st": k, "l": []}
        ls = self.lines(r.choice([0, 1, 3, 6, 12]))
        return self.text(ls), {"st": "ok", "l": ls}

class File:
    """the configuration file, edited in several ways, always with another time"""
    def __init__(self, path, rng):
        self.path, self.rng, self.n = path, rng, 0
        self.used = set()
        self.bytes = None
    def stamp(self, p):
        r = self.rng
        while True:
            t = int(time.time() * 1e9) + r.choice([0, 0, 0, -3600, 3600, -400 * 86400, 1]) * 10**9 + r.choice([0, 1, -1, 1000, 999999999])
            if t not in self.used: break
        self.used.add(t)
        os.utime(p, ns=(t, t))
    def clear(self):
        if os.path.isdir(self.path): os.rmdir(self.path)
        elif os.path.exists(self.path): os.unlink(self.path)
    def put(self, text, st):
        self.bytes = None
        if st == "none": self.clear(); return
        if st == "dir":
            self.clear(); os.mkdir(self.path); self.stamp(self.path); return
        self.bytes = text.encode()
        if os.path.isdir(self.path): os.rmdir(self.path)
        self.n += 1
        p = self.path + ".%d" % self.n
        open(p, "wb").write(self.bytes)
        self.stamp(p)
        os.rename(p, self.path)

def strs(fields):
    low = {k.lower(): v for k, v in fields.items()}
    out = {}
    for o in OPT:
        k = "objnamesimple" if o == "obj_name" else o.replace("_", "")
        if k not in low: raise CheckError("the configuration has no field for %s" % o)
        v = low[k]
        out[o] = ("true" if v else "false") if isinstance(v, bool) else str(v)
    return out

class Sess:
    def __init__(self, ctx, rng, tid, wire_=None, live=False):
        self.ctx, self.rng, self.live, self.C = ctx, rng, live, wire_
        home = tempfile.mkdtemp(prefix="home-", dir=ctx.tmp)
        self.f = File(os.path.join(home, "agent.conf"), rng)
        self.g = Gen(rng, CONN if wire_ else ())
        env = self.g.env()
        def plain(v): return "".join("".join(p["s"]) if p["t"] == "lit" else "${%s}" % p["k"] if p["t"] == "ref" else "${oops" for p in v)
        if wire_:
            for k, v in (("net_collector_ip", "127.0.0.1"), ("net_collector_tcp_port", str(wire_.port)), ("net_collector_udp_port", "1")):
                env.append({"k": k, "v": [{"t": "lit", "s": list(v), "k": ""}]})
        kinds = ["ok", "ok", "ok", "bad"] + ([] if live else ["none"])
        text, st = self.g.content(kinds)
        self.f.put(text, st["st"])
        self.st, self.g.small = st, False
        self.t = {"id": tid, "env": env, "host": socket.gethostname(), "file": st, "ev": []}
        self.ev = self.t["ev"]
        self.a = ctx.agent(udp=False, home=home, nofile_conf=True, env={l["k"]: plain(l["v"]) for l in env})
        self.conn, self.lonely = None, False
        if wire_:
            self.a.call("scale", f=0.05)
            self.conn = wire_.connect(30)
            self.lonely = not self.conn      # (it may have the wrong values)
        if not live:
            self.a.call("pause", ms=900)
            self.a.call("ping", quiesce=True)
        self.nobs = rng.choice([1, 2, 5])
        self.a.call("observe", n=self.nobs)
    def kinds(self):
        k = ["ok"] * 6 + ["bad"] * 2
        if not self.live: k += ["none", "dir"]
        return k
    def refresh(self, n=1):
        self.a.call("refresh", n=n, mode="free", seed=self.rng.randrange(1 << 30)); self.ev.append({"k": "refresh", "n": n})
    def edit(self, c=None):
        text, st = c or self.g.content(self.kinds())
        self.f.put(text, st["st"]); self.st = st
        self.ev.append({"k": "edit", "f": st})
        self.ctx.count("edits")
    def notes(self):
        l = self.a.call("notes")["l"]
        self.ev.append({"k": "notes", "n": [x["n"] for x in l], "saw": [strs(x["saw"]) for x in l if x["n"] > 0]})
    def values(self):
        r = self.a.call("confget")
        f = r["fields"]
        self.ev.append({"k": "values", "v": strs(f), "objname": f["ObjName"], "hashok": f["ObjHash"] == wire.hash_string(f["ObjName"])})
        return r
    def listing(self):
        if self.conn:
            m = self.conn.ask("LIST_CONFIGURE_WAS")
            q = [{"k": k, "v": v, "d": d} for k, v, d in zip(m["key"], m["value"], m["default"])]
            if not len(m["key"]) == len(m["value"]) == len(m["default"]): raise Violation("the listing's columns differ in length", {"trace": self.t})
        else: q = [{"k": d["k"], "v": d["v"], "d": d["d"]} for d in self.a.call("confget")["desc"]]
        self.ev.append({"k": "list", "q": q})
    def text(self):
        if not self.conn: return
        m = self.conn.ask("GET_CONFIGURE_WAS")
        got, want = m.get("agentConfig"), (self.f.bytes or b"").decode()
        if len(self.f.bytes or b"") > 100000: want = "huge string omitted..."      # the wire format has no longer texts
        self.ev.append({"k": "text", "same": got == want} if got == want else {"k": "text", "same": False, "got": got, "want": want})
    def saved(self, text, st, ok, last):
        isdir = os.path.isdir(self.f.path)
        e = {"k": "save", "f": st, "ok": str(ok).lower() == "true", "kept": isdir,
             "stored": not last or not isdir and os.path.exists(self.f.path) and open(self.f.path, "rb").read() == text.encode()}
        if self.st["st"] != "dir":
            self.f.bytes = text.encode(); self.st = st
        self.ev.append(e)
        self.ctx.count("saves")
    def save(self):
        """one, or several so fast that the file's time may not change in between"""
        if not self.conn: return
        r = self.rng
        reqs = []
        for _ in range(r.choice([1, 1, 2, 4])):
            text, st = self.g.content(["ok", "ok", "ok", "bad"])
            if st["st"] == "ok" and (not text or text.endswith(("\n", "\r"))):
                text = r.choice(["", "", "\n", "  ", "\r\n", "# \0\ufeff\n"]) + text + r.choice(["", " ", "   ", "\n\n", "\t", "  \n", "#", "# é \u2028 ", "\r"])
            reqs.append((text, st))
        self.conn.send(b"".join(wire.e_request("SET_CONFIGURE_WAS", {"setConfig": t, "other": 1}) for t, _ in reqs))
        oks = []
        for t, _ in reqs:
            x = self.conn.response()
            if len(x) != 1: raise wire.WireError("%d packs in the answer to a save" % len(x))
            oks.append(wire.pack(wire.Rd(x[0]))["m"].get("result"))
        v = self.a.call("confget")["fields"]       # at once
        for i, ((text, st), ok) in enumerate(zip(reqs, oks)): self.saved(text, st, ok, i == len(reqs) - 1)
        if r.random() < 0.8:
            self.ev.append({"k": "values", "v": strs(v), "objname": v["ObjName"], "hashok": v["ObjHash"] == wire.hash_string(v["ObjName"])})
    def race(self):
        """an edit while a large file is being read"""
        r = self.rng
        ls = self.g.lines(5)
        ls2 = self.g.lines(5)
        big = "".join("# %s\n" % ("x" * 60) for _ in range(r.choice([2000, 8000])))
        def text(l):
            t = self.g.text(l)
            return t + ("" if t.endswith(("\n", "\r")) else "\n") + big
        if r.random() < 0.8 or self.st["st"] == "dir": self.edit((text(ls), {"st": "ok", "l": ls}))
        t2 = text(ls2) if r.random() < 0.5 else self.g.text(ls2)
        d = r.random() * 0.03
        th = threading.Thread(target=lambda: (time.sleep(d), self.f.put(t2, "ok")))
        th.start()
        self.a.call("refresh", n=1, mode="free", seed=1)
        th.join()
        self.st = {"st": "ok", "l": ls2}
        self.ev.append({"k": "race", "f": self.st})
        self.refresh()
        self.values()
        self.ctx.count("races")
    def await_(self):
        """the agent looks at the file by itself"""
        good = self.st["st"] == "ok" and sound(self.st["l"], self.t["env"])
        end = time.time() + 20
        while good and time.time() < end and not all(x["n"] for x in self.a.call("notes", peek=True)["l"]): time.sleep(0.01)
        time.sleep(0.15)
        self.ev.append({"k": "refresh", "n": 1})
        self.notes(); self.values()
    def run(self, n):
        r = self.rng
        self.values(); self.listing(); self.text()
        if self.lonely: return self.t
        for _ in range(n):
            if self.live:
                self.edit(); self.await_()
                if r.random() < 0.3: self.listing()
                continue
            x = r.random()
            if x < 0.5:
                for _ in range(r.choice([1, 1, 1, 2])): self.edit()
                if r.random() < 0.2: self.values()
                self.refresh(r.choice([1, 1, 2, 4]))
                for _ in range(r.choice([0, 1, 2])): r.choice([self.values, self.listing, self.text, self.notes, self.refresh])()
                self.values()
            elif x < 0.7 and self.conn: self.save()
            elif x < 0.8: self.race()
            else: r.choice([self.values, self.listing, self.text, self.notes, self.refresh])()
            if r.random() < 0.6: self.notes()
        self.notes(); self.values(); self.listing(); self.text()
        return self.t

def sound(lines, env):
    """whether no key of the file goes round in a circle (as in the specification)"""
    f = {l["k"]: l["v"] for l in lines}
    e = {l["k"]: l["v"] for l in env}
    def ok(k, seen):
        if k in seen: return False
        v = f.get(k, e.get(k, []))
        return all(p["t"] == "lit" or p["t"] == "ref" and ok(p["k"], seen | {k}) for p in v)
    return all(ok(k, frozenset()) for k in f)

def run(ctx):
    ctx.build("agent")
    traces = []
    def models():
        ctx.model("ConfMC", "ConfMC.cfg", workers=3, expect_actions=["Edit", "Tick", "Start", "Write", "Confirm"])
        for v in ("statlate", "nolock", "notifyfirst", "keeptime"): ctx.refute("ConfMC", "ConfMC_%s.cfg" % v)
        if ctx.thorough: ctx.model("ConfMC", "ConfMC_big.cfg", workers=6, timeout=3000, heap="12g")
    lonely = []
    def worker(k):
        rng = random.Random(ctx.seed * 613 + k)
        for i in range(ctx.pick(7, 120)):
            kind = ("local", "local", "wire", "local", "wire", "live", "local")[i % 7]
            tid = "%s%d-%d" % (kind, k, i)
            C = collector.Collector() if kind == "wire" else None
            s = None
            try:
                s = Sess(ctx, rng, tid, C, kind == "live")
                if kind == "live": s.a.call("scale", f=0.005)
                traces.append(s.run(rng.choice([6, 12, 25]) if kind != "live" else 6))
                if s.lonely: lonely.append(tid)
            except Died as d:
                if s is None: raise
                raise Violation("a configuration ends or holds the program: %s" % d.why, {"trace": s.t, "stderr": d.stderr[-5000:]})
            except (wire.WireError, collector.Eof, collector.Mute) as e:
                raise Violation("a configuration request is not answered: %r" % e, {"trace": s.t if s else tid})
            finally:
                if s: s.a.close()
                if C: C.close()
    parallel([models] + [lambda k=k: worker(k) for k in range(8)], 9)
    n = [0]
    def corrupt(t):
        n[0] += 1
        c = n[0] % 4
        ix = {k: [i for i, e in enumerate(t["ev"]) if e["k"] == k] for k in ("values", "list", "notes")}
        if c == 0:
            e = t["ev"][ix["values"][-1]]; o = sorted(OPT)[n[0] * 7 % len(OPT)]; e["v"][o] += "1"
        elif c == 1:
            e = t["ev"][ix["list"][0]]; i = [i for i, q in enumerate(e["q"]) if q["k"] in OPT][n[0] % len(OPT)]; e["q"][i]["v"] += "0"
        elif c == 2: t["ev"][ix["notes"][-1]]["n"][0] += 99
        else:
            w = [i for i in ix["notes"] if t["ev"][i]["n"][0] > 0 and t["ev"][i]["saw"]]
            if not w: return None
            e = t["ev"][w[0]]["saw"][0]; e["obj_type"] += "!"
        return t
    if lonely: ctx.log("the agent did not connect: %s" % lonely)
    ctx.judge("ConfTrace", "ConfTrace.cfg", traces, "configuration", selftest=corrupt)
    if lonely and not ctx.violations: raise CheckError("the agent did not connect: %s" % lonely)
    ctx.assumptions += ["every edit of the file gives it another modification time (older or newer)", "the parser library's escapes and continuation lines are as in Java properties files",
                        "${} references go to variables which the file, where it has them, does not leave empty"]
