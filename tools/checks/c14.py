"""C14: dump-file commands stay inside the dump directories and are faithful."""
import re, threading, zlib
from progs import *
import collector
from collector import Eof, Mute, Second

CMD = {"list": "OBJECT_DUMP_FILE_LIST", "blist": "OBJECT_LIST_HEAP_DUMP", "stream": "OBJECT_DUMP_FILE_DETAIL", "download": "OBJECT_DOWNLOAD_HEAP_DUMP",
       "delete": "OBJECT_DELETE_HEAP_DUMP", "dump": "TRIGGER_THREAD_DUMP"}
KEY = {"stream": "name", "download": "fileName", "delete": "delfileName"}
BINARY = ("blist", "download", "delete")
SIZES = [0, 1, 2, 252, 253, 254, 255, 256, 299, 300, 301, 599, 600, 601, 4095, 4096, 4097, 8192, 12288, 65534, 65535, 65536, 65537, 70000, 300 * 300]
ODD = ["a..b.pprof", "..pprof", "...pprof", " sp ace .pprof", "ünï한.pprof", "a%2e%2e%2fb.pprof", "a\\b.pprof", "-rf.pprof", "*.pprof", "[a].pprof", ".hidden.pprof", "two\nlines.pprof",
       "x" * 240 + ".pprof", "UPPER.pprof", "upper.pprof", "pprof", "~", "go_dump_20200101_000000.log", "CON", "a..b", "..a", "...", "é.log", "a b", "$HOME", "?.log", "x.pprof.bak", "y.pproF"]
PROFILES = [("OBJECT_CALL_CPU_PROFILE", "cpu", True), ("OBJECT_CALL_BLOCK_PROFILE", "block", True), ("OBJECT_CALL_MUTEX_PROFILE", "mutex", True),
            ("TRIGGER_BLOCK_PROFILE", "block", False), ("TRIGGER_MUTEX_PROFILE", "mutex", False)]
HOMES = [("home", "abs"), ("home", "slash"), ("link", "abs"), ("home", "rel"), ("home", "dots"), ("scouter", "unset"), ("h [a]*%20 é\\n", "abs"), (".home..", "rel")]

def comps(p): return [c for c in p.split("/") if c]

class Yard:
    """a scratch place: the agent's home, its dump directories, and what lies around them"""
    def __init__(self, ctx, rng, tid, form):
        self.ctx, self.rng, self.lock = ctx, rng, threading.RLock()
        self.base = os.path.join(ctx.tmp, "yard-" + tid)
        os.makedirs(self.base)
        name, how = form
        self.home = os.path.join(self.base, name)
        if name == "link":
            os.makedirs(os.path.join(self.base, "elsewhere", "real")); os.symlink(os.path.join("elsewhere", "real"), self.home)
        else: os.makedirs(self.home)
        self.env = {"abs": self.home, "slash": self.home + "//", "rel": name, "dots": "./%s/../%s/." % (name, name), "unset": None}[how]
        self.dump, self.binary = os.path.join(self.home, "dump"), os.path.join(self.home, "binary_dump")
        self.streams, self.files, self.n, self.all = {}, {}, 0, set()
        for d in (self.dump, self.binary, self.dump + "2", self.binary + "2", self.dump + "/sub", self.binary + "/sub", self.binary + "/d.pprof", self.base + "/outside", self.base + "/tmp",
                  self.home + "/du"): os.makedirs(d)
        self.ev, self.calls, self.makes = [], [], []
    def outside(self):
        """files nobody may ask for"""
        for p in ("/outside/secret.pprof", "/outside/secret.log", "/secret.pprof"): self.put(self.base + p, 300)
        for p in ("/secret.pprof", "/secret.log", "/pprof", "/dump2/a.pprof", "/binary_dump2/a.pprof", "/dump2/a", "/du/a.pprof"): self.put(self.home + p, 299)
        for p in (self.dump + "/sub/in.log", self.binary + "/sub/in.pprof", self.binary + "/d.pprof/in.pprof"): self.put(p, 500)
        own(self.base)
        self.secrets = ["../secret.pprof", "../secret.log", "../pprof", "../dump2/a.pprof", "../binary_dump2/a.pprof", "../dump2/a", "../du/a.pprof", "../../outside/secret.pprof", "../../outside/secret.log", "../../secret.pprof",
                        self.base + "/outside/secret.pprof", self.base + "/outside/secret.log", "../.." + self.base + "/secret.pprof", "../" * 40 + self.base.lstrip("/") + "/outside/secret.pprof",
                        "a/../../secret.pprof", "./../secret.log", "sub/../../secret.pprof", "nosuch/../../secret.pprof", "..//secret.pprof", ".././secret.pprof", "/../secret.pprof", "../secret.pprof/", "../secret.pprof/.",
                        "..%2fsecret.pprof", "..\\secret.pprof", "../secret.pprof\0", "../secret.log\0.pprof", "../secret.log/../secret.pprof", "2/a.pprof", "../dump/../secret.pprof", "d.pprof/../../secret.pprof", "sub/../../../outside/secret.pprof"]
    def log(self, e):
        with self.lock: self.ev.append(e)
    def change(self, path, v, n, do):
        with self.lock:
            e = {"path": comps(path), "v": v, "n": n}
            self.ev.append(dict(e, k="b")); self.all.add(path)
        do()
        with self.lock:
            self.ev.append(dict(e, k="e"))
            if v: self.files[path] = (v, n)
            else: self.files.pop(path, None)
    def fresh(self, n):
        self.n += 1
        v = "v%d" % self.n
        self.streams[v] = self.rng.randbytes(16) + (self.rng.randbytes(4096) * (n // 4096 + 1))[:max(0, n - 16)]
        self.streams[v] = self.streams[v][:n]
        return v
    def put(self, path, n):
        v = self.fresh(n)
        t = os.path.join(self.base, "tmp", v)
        with open(t, "wb") as f: f.write(self.streams[v])
        self.change(path, v, n, lambda: os.rename(t, path))
    def grow(self, path, m):
        if path not in self.files: return
        v, n = self.files[path]
        s = self.streams[v][:n] + self.rng.randbytes(m)
        self.streams[v] = s
        def do():
            with open(path, "ab") as f: f.write(s[n:])
        self.change(path, v, n + m, do)
    def unlink(self, path):
        if path in self.files: self.change(path, "", 0, lambda: os.unlink(path))
    def changed(self, skip=()):
        """what is not as the program left it"""
        seen, r = {}, []
        for d, ds, fs in os.walk(self.base):
            if d == self.base or d.startswith(self.base + "/tmp"): fs = [f for f in fs if f == "secret.pprof"]
            if os.path.basename(d) == "logs": continue
            if self.home.endswith("/link") and d.startswith(self.base + "/elsewhere/real"): d = self.home + d[len(self.base + "/elsewhere/real"):]
            for f in fs: seen[os.path.join(d, f)] = os.lstat(os.path.join(d, f)).st_size
        for p, n in seen.items():
            if p not in self.files or self.files[p][1] != n or p in skip:
                if not (self.makes and re.match(r"go_(cpu|block|mutex)_", os.path.basename(p))): r.append(comps(p))
        return r + [comps(p) for p in self.files if p not in seen]
    def kids(self, dir): return [p for p in self.files if os.path.dirname(p) == dir]

class Session:
    def __init__(self, ctx, a, C, y, rng, quiet=True):
        self.ctx, self.a, self.C, self.y, self.rng, self.quiet = ctx, a, C, y, rng, quiet
        self.c = C.connect(30)
        self.crowd, self.depth, self.dead, self.gone = [], 0, False, set()
        if not self.c: self.lost("no connection")
    def lost(self, what):
        self.y.log({"k": "lost", "what": what}); self.dead = True
        raise Mute(what)
    def ask(self, cmd, name=""):
        y = self.y
        y.log({"k": "ask", "cmd": cmd, "name": name.split("/"), "makes": {"kind": "", "dir": []}})
        y.calls.append((cmd, name))
        m = {KEY[cmd]: name} if cmd in KEY else {}
        try: self.c.send(wire.e_request(CMD[cmd], m))
        except Eof: self.lost("connection lost")
        self.ctx.count("dump_requests")
    def profile(self, which):
        cmd, kind, binary = which
        y = self.y
        y.makes.append(which)
        y.log({"k": "ask", "cmd": "profile", "name": [""], "makes": {"kind": kind, "dir": comps(y.binary if binary else y.dump)}})
        r = self.items(cmd)
        y.log({"k": "ans", "ok": (r[0].get("success") is True if len(r) == 1 and binary else not r), "changed": y.changed() if self.quiet else [], "seen": self.quiet})
    def items(self, cmd=None, blobs=False):
        try:
            if cmd: self.c.send(wire.e_request(cmd, {}))
            r = self.c.response(blobs, 60)
        except (Eof, Mute, Second) as x: self.lost(repr(x))
        except wire.WireError as x: self.lost("garbage: %s" % x)
        if blobs: return b"".join(r)
        out = []
        for b in r:
            rd = wire.Rd(b); p = wire.pack(rd)
            if p["p"] != "map" or not rd.end(): self.lost("not a map")
            out.append(p["m"])
        return out
    def answer(self):
        y = self.y
        cmd, name = y.calls.pop(0)
        e = {"k": "ans", "changed": [], "seen": self.quiet}
        if cmd in ("stream", "download"):
            d = self.items(blobs=True)
            vs = [v for v, s in y.streams.items() if d and s[:len(d)] == d]
            e.update(vs=vs, n=len(d), whole=not d or bool(vs))
            if not e["whole"]: e["head"] = repr(d[:60])
            self.ctx.count("bytes_delivered", len(d))
        else:
            r = self.items()
            if len(r) != 1: self.lost("%d packs in an answer" % len(r))
            m = r[0]
            if cmd in ("list", "blist"):
                if len(m["name"]) != len(m["size"]): self.lost("lists of different lengths")
                e["files"] = [{"name": n, "rel": n.split("/"), "n": s, "kind": (re.findall(r"^go_(cpu|block|mutex)_", n) or [""])[0] if y.makes else ""} for n, s in zip(m["name"], m["size"])]
            elif cmd == "delete": e["ok"] = m["success"] is True
            elif cmd == "dump":
                p = m.get("name") or ""
                e.update(path=comps(p if p.startswith("/") or not p else os.path.join(y.base, p)), v="", n=0, missing=0, stale=0, whole=True)
                if p: self.judge_dump(p, e)
                return self.end(e, "/" + "/".join(e["path"]) if p else None)
        self.end(e, None, y_name=(cmd, name, e))
    def end(self, e, dumped, y_name=None):
        y = self.y
        if self.quiet: e["changed"] = y.changed([dumped] if dumped else ())
        y.log(e)
        if dumped:
            if y.home.endswith("/link") and dumped.startswith(y.base + "/elsewhere/real"): dumped = y.home + dumped[len(y.base + "/elsewhere/real"):]
            y.files[dumped] = (e["v"], e["n"]); y.all.add(dumped)
        if y_name and y_name[0] == "delete" and not self.quiet and e["ok"]: y.files.pop(os.path.join(y.binary, y_name[1]), None)
        if y_name and y_name[0] == "delete":
            for p in e["changed"]: y.files.pop("/" + "/".join(p), None)
    def judge_dump(self, p, e):
        y = self.y
        try:
            with open(os.path.join(y.base, p), "rb") as f: d = f.read(80 << 20)
        except OSError: d = b""
        blocks = {}
        for b in re.split(rb"\n\n", d):
            m = re.match(rb"goroutine (\d+) ", b)
            if m: blocks[int(m.group(1))] = b
        miss = 0
        for i in self.crowd:
            b = blocks.get(i, b"")
            if b.count(b"rig.crowdStand(") < self.depth + 1 or b"rig.Crowd" not in b: miss += 1
        y.n += 1
        v = "dump%d" % y.n
        y.streams[v] = d
        e.update(v=v, n=len(d), missing=miss, stale=len(self.gone & set(blocks)), whole=d.endswith(b"\n") and bool(blocks))
        self.ctx.count("goroutines_in_dumps", len(blocks))
    def do(self, cmd, name=""):
        self.ask(cmd, name); self.answer()
    def people(self, n, depth):
        self.a.call("disperse")
        self.gone.update(self.crowd)
        self.crowd, self.depth = self.a.call("crowd", n=n, depth=depth)["ids"] if n else [], depth
    def found(self):
        """the profiles asked for"""
        y = self.y
        end = time.time() + 25
        def news():
            r = []
            for d in (y.dump, y.binary):
                for f in sorted(os.listdir(d)):
                    m = re.match(r"go_(cpu|block|mutex)_.*", f)
                    if m and os.path.join(d, f) not in y.files:
                        with open(os.path.join(d, f), "rb") as g: b = g.read()
                        ok = b.startswith(b"--- ") and b.endswith(b"\n")
                        if b[:2] == b"\x1f\x8b":
                            try: z = zlib.decompressobj(31); z.decompress(b); ok = z.eof
                            except zlib.error: ok = False
                        r.append((os.path.join(d, f), m.group(1), b, ok))
            return r
        while time.time() < end:
            r = news()
            if len(r) >= len(y.makes) and all(x[3] for x in r): break
            time.sleep(0.1)
        for p, kind, b, ok in r:
            y.n += 1; v = "p%d" % y.n
            y.streams[v] = b; y.files[p] = (v, len(b)); y.all.add(p)
            y.log({"k": "found", "path": comps(p), "kind": kind, "v": v, "n": len(b), "whole": ok})
        y.makes = []
        y.log({"k": "rest"})

def run(ctx):
    ctx.build("agent")
    traces, scripts, gen = [], [], threading.Event()
    def models():
        try: scripts.extend(ctx.generate("DumpGen", "DumpGen.cfg", ctx.pick(240, 2500), 200))
        finally: gen.set()
        acts = ["Others", "Read", "ListNames", "Stat", "Listed", "Open", "Chunk", "Delete", "Create", "Write", "Flush", "Rest"]
        ctx.model("DumpMC", "DumpMC.cfg", workers=3)
        ctx.model("DumpMC", "DumpMC_names.cfg", workers=3)
        for v in ("raw", "prefix", "first", "dotted", "gone", "reopen", "unflushed", "ignored"): ctx.refute("DumpMC", "DumpMC_%s.cfg" % v)
        if ctx.thorough:
            ctx.model("DumpMC", "DumpMC_big.cfg", workers=6, timeout=3000, heap="10g", coverage=False)
            ctx.model("DumpMC", "DumpMC_allnames.cfg", workers=6, timeout=3000, heap="10g", coverage=False)
    def names(s, y, r, dirs):
        """something to ask for"""
        d = r.choice(dirs)
        k = r.random()
        mine = [os.path.basename(p) for p in y.kids(d)]
        if k < 0.5 and mine: return r.choice(mine)
        if k < 0.6: return r.choice(ODD)
        if k < 0.85: return r.choice(y.secrets)
        return r.choice(["", ".", "..", "/", "./", "sub", "sub/in.log", "sub/in.pprof", "d.pprof", "d.pprof/in.pprof", "no.pprof", "no", "./a.pprof", "a.pprof/", "sub/../a.pprof", "nosuch/../a.pprof", "../dump/a.pprof",
                         "../binary_dump/a.pprof", "a.pprof/.", "a.pprof/..", "//a.pprof", d + "/a.pprof", "../" * 30 + d.lstrip("/") + "/a.pprof", "a" * 300 + ".pprof", "x/" * 2000 + "a.pprof", "\0", "a.pprof\0",
                         "A.PPROF", "*", "*.pprof", "?.pprof", "[a-z].pprof", "a.pprof a.pprof", "a.pprof;id", "file://a.pprof"])
    def random_ops(s, y, r, n, dirs, during=0.0):
        for _ in range(n):
            k = r.random()
            if k < 0.3:
                d = r.choice(dirs)
                mine = y.kids(d)
                k = r.random()
                if k < 0.5 or not mine: y.put(os.path.join(d, r.choice(ODD + ["a.pprof", "b.pprof", "a", "b.log"])), r.choice(SIZES + [r.randrange(3000)]))
                elif k < 0.8: y.grow(r.choice(mine), r.choice([1, 300, 4096, 5000]))
                else: y.unlink(r.choice(mine))
                continue
            cmd = r.choice(["list", "blist", "stream", "stream", "download", "download", "delete", "delete"] + (["dump"] if r.random() < 0.3 else []))
            s.do(cmd, names(s, y, r, dirs) if cmd in KEY else "")
            if cmd == "delete": s.do("blist")
    def play(s, y, script, r):
        """a generated behaviour with files of this yard"""
        inn = {"a": r.choice(["a.pprof"] + ODD[:14]), "a..b": "a..b.pprof"}
        sub = lambda c: {"a": inn["a"], "a..b": inn["a..b"]}.get(c, c)
        dirs = {"a": y.binary, "a..b": y.binary}
        for d in (y.dump, y.binary):
            for f in inn.values(): y.put(os.path.join(d, f), r.choice(SIZES))
        for o in script:
            if o["o"] == "ask":
                while y.calls: s.answer()
                cmd = o["c"] if o["c"] != "dump" else r.choice(["dump", "blist", "list"])
                if cmd == "list": cmd = r.choice(["list", "blist"])
                if cmd == "stream": cmd = r.choice(["stream", "download"])
                d = y.dump if cmd == "stream" else y.binary
                name = "/".join(sub(c) if c not in ("dump", "dump2") else c if cmd == "stream" else "binary_" + c for c in o["name"])
                if r.random() < 0.1: name = r.choice(y.secrets)
                s.ask(cmd, name)
                if cmd in ("delete", "dump"): s.answer()
                elif not r.random() < 0.6: s.answer()
            else:
                d = r.choice([y.dump, y.binary])
                p = os.path.join(d, inn[o["p"]])
                if o["o"] == "grow": y.grow(p, r.choice([1, 300, 4096]))
                elif o["o"] == "unlink": y.unlink(p)
                else: y.put(p, r.choice(SIZES))
        while y.calls: s.answer()
    def during(s, y, r):
        """files that change while their content is on its way"""
        for cmd, d in (("stream", y.dump), ("download", y.binary)):
            for how in ["grow", "unlink", "replace", "shrunk"] * ctx.pick(2, 8):
                p = os.path.join(d, "big-%s.pprof" % how)
                y.put(p, 12_000_000 + r.randrange(3) * 300)
                s.ask(cmd, os.path.basename(p))
                time.sleep(r.choice([0.002, 0.005, 0.01, 0.02, 0.04]))
                if how == "grow": y.grow(p, 100_000)
                elif how == "unlink": y.unlink(p)
                else: y.put(p, 900 if how == "shrunk" else 7_000_000)
                s.ask("list" if cmd == "stream" else "blist")
                s.answer(); s.answer()
                y.unlink(p)
    def churn(s, y, r):
        """files come and go while they are listed"""
        s.quiet = False
        stop = threading.Event()
        rr = random.Random(r.random())
        for d in (y.dump, y.binary):
            for i in range(ctx.pick(150, 600)): y.put(os.path.join(d, "stay%d.pprof" % i), i)
        def work():
            while not stop.is_set():
                d = rr.choice([y.dump, y.binary])
                p = os.path.join(d, "go%d.pprof" % rr.randrange(40))
                k = rr.random()
                if k < 0.4: y.unlink(p)
                elif k < 0.5: y.grow(p, 300)
                else: y.put(p, rr.randrange(900))
                if rr.random() < 0.3: time.sleep(0.0005)
        t = threading.Thread(target=work); t.start()
        try:
            for _ in range(ctx.pick(8, 60)):
                for _ in range(r.choice([1, 1, 3])):
                    cmd = r.choice(["list", "blist", "stream", "download"])
                    s.ask(cmd, "go%d.pprof" % r.randrange(40) if cmd in KEY else "")
                while y.calls: s.answer()
        finally: stop.set(); t.join()
        s.quiet = True
    def storm(s, y, r):
        """as fast as a program can do it"""
        for d in (y.dump, y.binary):
            for i in range(100): y.put(os.path.join(d, "stay%d.pprof" % i), i)
        names = ["go%d.pprof" % i for i in range(31)]
        v = y.fresh(777); src = os.path.join(y.base, "tmp", v)
        with open(src, "wb") as f: f.write(y.streams[v])
        for d in (y.dump, y.binary):
            for n in names: y.all.add(os.path.join(d, n)); y.log({"k": "b", "path": comps(os.path.join(d, n)), "v": v, "n": 777})
        s.quiet = False
        s.a.call("churn", src=src, dirs=[y.dump, y.binary], names=names)
        for _ in range(ctx.pick(60, 400)):
            cmd = r.choice(["list", "list", "blist", "blist", "stream", "download", "delete"])
            s.do(cmd, ("stay" if cmd == "delete" and not r.randrange(3) else "go") + "%d.pprof" % r.randrange(31) if cmd in KEY else "")
        ctx.count("files_removed_while_listing", s.a.call("churnend")["n"])
        for d in (y.dump, y.binary):
            for n in names: y.log({"k": "e", "path": comps(os.path.join(d, n)), "v": "", "n": 0})
        s.quiet = True
        s.do("list"); s.do("blist")
    def finish(s, y, tid, refuses=False):
        try:
            if s and not s.dead: y.log({"k": "rest"}) if not y.makes else s.found()
        finally:
            pp = [comps(p) for p in y.all if p.endswith("pprof")]
            traces.append({"id": tid, "dump": comps(y.dump), "binary": comps(y.binary), "pp": pp, "refuses": refuses, "ev": y.ev})
    def yard(tid, r, form, script, refuses=None):
        """one agent, one home"""
        C = collector.Collector()
        C.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
        s = None
        y = Yard(ctx, r, tid, form)
        try:
            y.outside()
            for d in (y.dump, y.binary):
                for f in ["a.pprof", "a", "b.pprof"] + r.sample(ODD, 4): y.put(os.path.join(d, f), r.choice(SIZES))
            if refuses: refuses(y)
            a = ctx.agent(tcp=C.port, home=y.base, keep=refuses is not None, env={"SCOUTER_AGENT_HOME": y.env}, unpriv=True, cwd=y.base)
            a.call("scale", f=0.05)
            s = Session(ctx, a, C, y, r)
            script(s, y)
            a.close()
        except Mute:
            if not y.ev or y.ev[-1]["k"] != "lost": raise
        except Died as d:
            raise Violation("dump commands end or hold the program: %s" % d.why, {"id": tid, "events": y.ev[-12:], "stderr": d.stderr[-5000:]})
        finally:
            C.close()
            finish(s, y, tid, refuses is not None)
            shutil.rmtree(y.base, ignore_errors=True)
    def small():
        """a program of a few goroutines: its dumps are short"""
        y = Yard(ctx, random.Random(ctx.seed), "small", HOMES[0])
        try:
            u = ctx.agent(name="unit", udp=False, home=y.base, env={"SCOUTER_AGENT_HOME": y.home}, cwd=y.base)
            for n, depth in [(0, 0), (1, 0), (3, 1), (0, 0), (1, 0), (10, 0), (2, 0), (60, 1), (1, 0)]:
                s = Session.__new__(Session)
                s.ctx, s.a, s.y, s.quiet, s.gone, s.crowd = ctx, u, y, True, set(), []
                s.people(n, depth)
                y.log({"k": "ask", "cmd": "dump", "name": [""], "makes": {"kind": "", "dir": []}})
                p = u.call("dump")["m"] or ""
                e = {"k": "ans", "changed": [], "seen": True, "path": comps(p), "v": "", "n": 0, "missing": 0, "stale": 0, "whole": True}
                if p: s.judge_dump(p, e)
                s.end(e, p or None)
            u.close()
        finally:
            y.log({"k": "rest"})
            traces.append({"id": "small", "dump": comps(y.dump), "binary": comps(y.binary), "pp": [], "refuses": False, "ev": y.ev})
            shutil.rmtree(y.base, ignore_errors=True)
    def worker(k):
        if k == 7: small()
        r = random.Random(ctx.seed * 523 + k)
        def profiles(s, y):
            if k < 2:
                for w in PROFILES: s.profile(w)
        def first(s, y):
            profiles(s, y)
            s.people([0, 3, 40, 400, 3000, 1, 8, 100][k], 30 if k == 4 else r.choice([0, 1, 30]))
            s.do("dump"); s.do("list"); s.do("blist")
            for n in r.sample([300, 30, 3, 0], 4):
                s.people(n, 1); s.do("dump")
            random_ops(s, y, r, ctx.pick(60, 500), [y.dump, y.binary])
            s.people(r.choice([0, 20, 300]), 2); s.do("dump")
            if y.files: s.do("list")
            if y.makes:
                s.found()
                for p in [p for p in y.files if re.match(r"go_(cpu|block|mutex)_", os.path.basename(p))]: s.do("stream" if p.startswith(y.dump + "/") else "download", os.path.basename(p))
                s.do("list"); s.do("blist")
        yard("random%d" % k, r, HOMES[k], first)
        if k % 4 == 2: yard("during%d" % k, r, r.choice(HOMES), lambda s, y: during(s, y, r))
        if k % 4 == 3: yard("churn%d" % k, r, r.choice(HOMES), lambda s, y: churn(s, y, r))
        if k % 4 == 1: yard("storm%d" % k, r, r.choice(HOMES), lambda s, y: storm(s, y, r))
        if k == 4 or ctx.thorough:
            def block(y):
                shutil.rmtree(y.dump); shutil.rmtree(y.binary)
                for p in [p for p in y.files if p.startswith((y.dump + "/", y.binary + "/"))]: y.log({"k": "b", "path": comps(p), "v": "", "n": 0}); y.log({"k": "e", "path": comps(p), "v": "", "n": 0}); del y.files[p]
                os.lchown(y.home, 0, 0); os.chmod(y.home, 0o755)
            yard("nodir%d" % k, r, HOMES[0], lambda s, y: (s.do("dump"), random_ops(s, y, r, 0, []), [s.do(c, n) for c in CMD for n in ("", "a.pprof", "../secret.pprof", ".")]), block)
        if k == 5 or ctx.thorough:
            def readonly(y):
                for d in (y.dump, y.binary): os.lchown(d, 0, 0); os.chmod(d, 0o755)
            yard("readonly%d" % k, r, HOMES[0], lambda s, y: [s.do(c, n) for c in CMD if c != "delete" for n in ("a.pprof", "../secret.pprof", "a")], readonly)
        if k == 6 or ctx.thorough:
            def full(s, y):
                """the disk is full"""
                s.quiet = False
                for t in range(6):
                    p = os.path.join(y.dump, time.strftime("go_dump_%Y%m%d_%H%M%S.log", time.localtime(time.time() + t)))
                    os.symlink("/dev/full", p)
                for n in (0, 50):
                    s.people(n, 1); s.do("dump")
            yard("full%d" % k, r, HOMES[0], full, lambda y: None)
        gen.wait(300)
        mine = scripts[k::8]
        for i in range(0, len(mine), 10):
            def some(s, y):
                for x in mine[i:i + 10]:
                    play(s, y, x, r)
                    for d in (y.dump, y.binary):
                        for p in y.kids(d)[6:]: y.unlink(p)
            yard("gen%d-%d" % (k, i), r, r.choice(HOMES), some)
    parallel([models] + [lambda k=k: worker(k) for k in range(8)], 9)
    n = [0]
    def corrupt(t):
        n[0] += 1
        c = n[0] % 6
        ev = t["ev"]
        idx = [i for i, e in enumerate(ev) if e["k"] == "ans"]
        def pick(f):
            x = [i for i in idx if f(ev[i])]
            return x[len(x) // 2] if x else None
        if c == 0: i = pick(lambda e: e.get("n", 0) > 1 and "vs" in e);  f = lambda e: e.update(vs=[])
        elif c == 1: i = pick(lambda e: len(e.get("files", [])) > 3); f = lambda e: e["files"].append(dict(e["files"][0], name="secret.pprof", rel=["secret.pprof"], kind=""))
        elif c == 2: i = pick(lambda e: "ok" in e and e["ok"] and e["changed"]); f = lambda e: e.update(changed=e["changed"] + [["x"]])
        elif c == 3: i = pick(lambda e: e.get("path")); f = lambda e: e.update(missing=1)
        elif c == 4: i = pick(lambda e: "vs" in e and not e["n"] and e["seen"]); f = lambda e: e.update(changed=[["home", "x"]])
        else: i = pick(lambda e: "files" in e and any(x["n"] for x in e["files"])); f = lambda e: [x.update(n=x["n"] + 100000) for x in e["files"]]
        if i is None: return None
        f(ev[i])
        return t
    ctx.judge("DumpTrace", "DumpTrace.cfg", traces, "dump commands", selftest=corrupt, timeout=800)
    ctx.assumptions += ["the agent runs as an unprivileged user in scratch directories of its own", "links placed inside the dump directories by the operator are the operator's business",
                        "a goroutine dump is complete up to the 64 MB the runtime gives"]
