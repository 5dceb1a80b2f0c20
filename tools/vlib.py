"""Shared machinery of the checks: building the drivers from /repo's working
tree, running TLC, running drivers, validating traces, verdicts, evidence."""
import base64, json, os, random, re, shutil, signal, socket, subprocess, sys, tempfile, threading, time
import wire

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
GO = "/opt/veriftools/go1.27.3/bin/go"
JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(VERIF, "spec")

class CheckError(Exception):
    """the check itself could not decide (exit 2)"""

class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay

def find_jars():
    d = os.path.dirname(JAR)
    js = [JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != os.path.basename(JAR))
    return ":".join(js)

def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", CGO_ENABLED="0", GOFLAGS="-mod=mod", GOWORK="off",
             HOME=os.environ.get("HOME", "/root"))
    e["PATH"] = os.path.dirname(GO) + ":" + e.get("PATH", "/usr/bin:/bin")
    return e

class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []   # (what, replay path, key)
        self.assumptions = []
        self.notes = {}
        self.bins = {}
        self.agents = []
        self.lock = threading.Lock()
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in (json.load(open(kf)) if os.path.exists(kf) else []) if k.get("property") == prop and k.get("status") == "known"]
        self.known_hit = set()

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def count(self, k, n=1):
        with self.lock:
            self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, x, limit=6):
        with self.lock:
            if len(self.cov["samples"]) < limit:
                self.cov["samples"].append(x)

    def violation(self, what, detail=None, key=None):
        """records a violation (or a known finding, when its key is listed)"""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k.get("what", key)), flush=True)
                return
        path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, len(self.violations)))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "detail": detail}, f, indent=1, default=str)
        self.violations.append((what, path))
        if len(self.violations) <= 10:
            self.log("VIOLATING:", what)

    # ------------------------------------------------------------ build
    def overlay(self):
        if "overlay" in self.bins:
            return self.bins["overlay"]
        out = os.path.join(self.tmp, "ov")
        os.makedirs(out, exist_ok=True)
        tool = os.path.join(self.tmp, "instr")
        self.sh([GO, "build", "-o", tool, "."], cwd=os.path.join(VERIF, "harness", "instr"))
        self.sh([tool, "-repo", REPO, "-out", out, "-vrt", os.path.join(VERIF, "harness", "vrt")])
        self.bins["overlay"] = os.path.join(out, "overlay.json")
        return self.bins["overlay"]

    def sh(self, cmd, cwd=None, timeout=600, env={}):
        p = subprocess.run(cmd, cwd=cwd, env=dict(goenv(), **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if p.returncode != 0:
            raise CheckError("%s failed:\n%s" % (" ".join(cmd[:6]), p.stdout.decode(errors="replace")[-4000:]))
        return p.stdout.decode(errors="replace")

    def build(self, name, race=False, cgo=False):
        if name in self.bins:
            return self.bins[name]
        ov = self.overlay()
        # the module files are copied: the go command may rewrite them
        d = os.path.join(self.tmp, "drv")
        if not os.path.isdir(d):
            shutil.copytree(os.path.join(VERIF, "harness", "drv"), d)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
        out = os.path.join(self.tmp, "bin-" + name)
        cmd = [GO, "build", "-overlay", ov, "-o", out, "./" + name]
        if cgo:
            # a program that calls into C; without a C compiler it just never does
            try: self.sh(cmd[:2] + ["-tags", "netgo,osusergo"] + cmd[2:], cwd=d, env={"CGO_ENABLED": "1"})
            except CheckError as e: self.log("no cgo: %s" % str(e)[-300:]); cgo = False
        if not cgo: self.sh(cmd, cwd=d)
        self.bins[name] = out
        self.log("built", name)
        return out

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=4, timeout=600, args=(), heap="3g", deque=False):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m"]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", find_jars(), "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
        cmd += list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timed out after %ds on %s" % (timeout, module))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def model(self, module, cfg, workers=8, timeout=600, expect_actions=(), heap="6g", env=None, coverage=True):
        """exhaustive check of the specification itself; a failure is an error of
        the specification (exit 2), never a verdict on the code"""
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, args=("-deadlock",) + (("-coverage", "1") if coverage else ()), heap=heap, env=env)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model %s/%s is not accepted by TLC:\n%s" % (module, cfg, out[-5000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        # vacuity: every named action of the model was taken
        cover = {}
        for a, d, g in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
            cover[a] = cover.get(a, 0) + int(g)
        for a in expect_actions:
            if cover.get(a, 0) == 0:
                raise CheckError("model %s/%s never takes action %s (vacuous): %s" % (module, cfg, a, cover))
        self.count("states", dist)
        self.count("transitions", gen)
        with self.lock:
            self.cov.setdefault("models", []).append({"module": module, "cfg": cfg, "distinct_states": dist, "transitions": gen,
                                                      "wall_s": round(time.time() - t, 1), "actions": cover})
        self.log("model %s/%s: %d distinct states, %d transitions" % (module, cfg, dist, gen))
        return dist

    def refute(self, module, cfg, timeout=300):
        """a deliberately broken variant of the model must be rejected by TLC: the
        properties are not vacuous"""
        rc, out = self.tlc(module, cfg, workers=4, timeout=timeout, args=("-deadlock",))
        if not re.search(r"Invariant .* is violated|[Pp]ropert(y|ies) .* (was|were|is) violated", out):
            raise CheckError("the broken model %s/%s is not rejected by TLC:\n%s" % (module, cfg, out[-3000:]))
        self.count("broken_models_rejected")
        self.log("broken model %s/%s: rejected, as it must be" % (module, cfg))

    def generate(self, module, cfg, num, depth, timeout=300, env=None, marker="GEN", exhaustive=False):
        """behaviours of the specification, printed by it as <<"GEN", json>>"""
        e = dict(env or {})
        args = ["-deadlock"]
        if not exhaustive:
            args += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed * 7919 + 17)]
        rc, out = self.tlc(module, cfg, workers=1, timeout=timeout, args=args, env=e)
        res = []
        for m in re.finditer(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % marker, out):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        if not res or "Error:" in out:
            raise CheckError("generation from %s/%s produced %d behaviours:\n%s" % (module, cfg, len(res), out[-3000:]))
        m = re.findall(r"(\d+) states generated", out) or re.findall(r"(\d+) states checked", out)
        if m:
            self.count("transitions", int(m[-1]))
        if not exhaustive and len(res) > num:
            res = random.Random(self.seed).sample(res, num)
        self.log("generated %d behaviours from %s" % (len(res), module))
        return res

    def validate(self, module, cfg, traces, shards=None, timeout=600, deque=False, heap="2g", const=None, env=None):
        """TLC decides for each trace whether the specification allows it.
        Returns {index: (accepted, events consumed)}."""
        if not traces:
            return []
        n = len(traces)
        total = sum(len(t["ev"]) for t in traces)
        shards = shards or max(1, min(8, total // 400 + 1, n))
        order = sorted(range(n), key=lambda i: -len(traces[i]["ev"]))
        parts = [order[i::shards] for i in range(shards)]
        result = [None] * n
        errs = []
        def work(k, idx):
            f = os.path.join(self.tmp, "tr-%s-%d-%d.ndjson" % (module, k, id(idx)))
            with open(f, "w") as h:
                for i in idx:
                    h.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
            try:
                e2 = {"TRACES": f}
                e2.update(env or {})
                rc, out = self.tlc(module, cfg, env=e2, workers=1, timeout=timeout, args=("-deadlock",), deque=deque, heap=heap)
            except CheckError as e:
                errs.append(str(e)); return
            m = re.findall(r'<<\s*"PROGRESS",\s*"([^"]*)"\s*>>', out)
            if not m:
                errs.append("no progress report from %s:\n%s" % (module, out[-3500:])); return
            prog = [int(x) for x in ",".join(m).split(",") if x != ""]
            if len(prog) != len(idx):
                errs.append("progress of %d traces, expected %d" % (len(prog), len(idx))); return
            if "Error:" in out:
                bad = [l for l in out.splitlines() if "Error:" in l and "POSTCONDITION" not in l.upper() and "ostcondition" not in l]
                if bad:
                    errs.append("TLC error in %s: %s\n%s" % (module, bad[0], out[-3500:])); return
            st = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            if st:
                self.count("transitions", int(st[-1][0])); self.count("states", int(st[-1][1]))
            for i, l in zip(idx, prog):
                result[i] = (l > len(traces[i]["ev"]), l - 1)
            if not os.environ.get("KEEPTR"): os.unlink(f)
        ths = [threading.Thread(target=work, args=(k, p)) for k, p in enumerate(parts) if p]
        for t in ths: t.start()
        for t in ths: t.join()
        if errs:
            raise CheckError(errs[0])
        self.count("traces_validated_against_impl", n)
        return result

    def judge(self, module, cfg, traces, what, meta=None, selftest=None, **kw):
        """validate; every rejected trace is a violation. selftest(trace) returns a
        corrupted copy that must be rejected (or None)."""
        res = self.validate(module, cfg, traces, **kw)
        bad = 0
        for i, (ok, at) in enumerate(res):
            if not ok:
                bad += 1
                ev = traces[i]["ev"]
                nxt = ev[at] if at < len(ev) else None
                self.violation("%s: the specification (%s) does not allow step %d of trace %s: %s" %
                               (what, module, at + 1, traces[i].get("id", i), json.dumps(nxt)[:400]),
                               {"module": module, "trace": traces[i], "rejected_at": at + 1, "meta": meta[i] if meta else None})
        if traces and len(traces[0]["ev"]) > 0:
            self.sample({"module": module, "trace": shorten(traces[len(traces) // 2])})
        self.log("%s: %d traces (%d events) validated by %s, %d rejected" % (what, len(traces), sum(len(t["ev"]) for t in traces), module, bad))
        if selftest and not bad:
            cor = []
            for t in traces:
                c = selftest(json.loads(json.dumps(t)))
                if c is not None:
                    cor.append(c)
                if len(cor) >= 24:
                    break
            if cor:
                r2 = self.validate(module, cfg, cor, **kw)
                self.cov["traces_validated_against_impl"] -= len(cor)
                missed = [c.get("id", "?") for c, (ok, _) in zip(cor, r2) if ok]
                self.count("corrupted_traces_rejected", len(cor) - len(missed))
                if missed:
                    raise CheckError("self test: %d of %d corrupted traces were accepted by %s (%s)" % (len(missed), len(cor), module, missed[:3]))
            else:
                self.log("self test: nothing to corrupt in", what)
        return res

    # ------------------------------------------------------------ agent
    def agent(self, **kw):
        a = Agent(self, **kw)
        self.agents.append(a)
        return a

    def finish(self):
        for a in self.agents:
            a.close()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def evidence(self, level):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

def shorten(t, n=12):
    t = json.loads(json.dumps(t))
    if len(t.get("ev", [])) > n:
        t["ev"] = t["ev"][:n] + ["... %d more" % (len(t["ev"]) - n)]
    s = json.dumps(t)
    if len(s) > 4000:
        return s[:4000] + "..."
    return t

class Died(Exception):
    def __init__(self, why, stderr=""):
        super().__init__(why)
        self.why, self.stderr = why, stderr
    def agent_fault(self):
        """the process ended by a panic or fatal error raised in agent code"""
        s = self.stderr
        i = max(s.find("panic:"), s.find("fatal error:"))
        if i < 0:
            return False
        for l in s[i:].splitlines():
            m = re.search(r"scouter-agent-golang/scouterx/([\w/.]+)", l)
            if m and "zverif" not in l:
                return True
        return False

UNPRIV = 65534
def can_drop():
    """whether this sandbox lets us run something as somebody else (a user namespace of one user does not)"""
    try: return os.getuid() == 0 and any(int(l.split()[0]) <= UNPRIV < int(l.split()[0]) + int(l.split()[2]) for l in open("/proc/self/uid_map"))
    except OSError: return False
def own(path):
    """gives a scratch directory to the unprivileged user"""
    if not can_drop(): return
    for d, ds, fs in os.walk(path):
        os.lchown(d, UNPRIV, UNPRIV)
        for f in ds + fs: os.lchown(os.path.join(d, f), UNPRIV, UNPRIV)

class Agent:
    """one driver process with its collector sockets"""
    def __init__(self, ctx, name="agent", conf=None, env=None, udp=True, tcp=False, home=None, timeout=60, nofile_conf=False, extra=None, unpriv=False, keep=False, cwd=None):
        self.ctx = ctx
        self.name = name
        self.bin = ctx.build(name)
        self.home = home or tempfile.mkdtemp(prefix="home-", dir=ctx.tmp)
        self.confpath = os.path.join(self.home, "agent.conf")
        self.udp = None
        fds = []
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
        if udp:
            self.udp = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.udp.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
            self.udp.bind(("127.0.0.1", 0))
            self.udp_port = self.udp.getsockname()[1]
            fds.append(self.udp.fileno())
            e["VUDP_FD"] = str(self.udp.fileno())
        self.base = {"net_collector_ip": "127.0.0.1", "net_collector_udp_port": self.udp_port if udp else 1,
                     "net_collector_tcp_port": 1}
        if tcp:
            self.base["net_collector_tcp_port"] = tcp
        conf = dict(self.base, **(conf or {}))
        if not nofile_conf:
            with open(self.confpath, "w") as f:
                f.write(self.text(conf))
        a, b = socket.socketpair()
        self.ctl = a
        self.timeout = timeout
        self.rbuf = b""
        fds.append(b.fileno())
        e.update(VCTL_FD=str(b.fileno()), SCOUTER_CONFIG=self.confpath, SCOUTER_AGENT_HOME=self.home)
        e.update(env or {})
        for k, v in list(e.items()):
            if v is None: del e[k]
        self.errpath = os.path.join(self.home, "stderr-%d.txt" % random.randrange(1 << 30))
        self.outpath = self.errpath.replace("stderr", "stdout")
        who = {}
        if unpriv and can_drop():
            # what the collector asks for may remove files: only ones of this home
            os.chmod(ctx.tmp, 0o711)
            who = {"user": UNPRIV, "group": UNPRIV, "extra_groups": []}
            if not keep: own(self.home)
        self.p = subprocess.Popen([self.bin] + list(extra or []), env=e, pass_fds=fds, stdin=subprocess.DEVNULL,
                                  stdout=open(self.outpath, "wb"), stderr=open(self.errpath, "wb"), cwd=cwd or self.home, **who)
        b.close()
        self.closed = False

    def text(self, conf):
        return "".join("%s=%s\n" % (k, v) for k, v in conf.items())

    def drops(self):
        if not self.udp: return 0
        ino = os.fstat(self.udp.fileno()).st_ino
        for l in open("/proc/net/udp"):
            p = l.split()
            if len(p) > 12 and p[9] == str(ino):
                return int(p[12])
        return 0

    def call(self, cmd, timeout=None, **kw):
        req = dict(kw, cmd=cmd)
        try:
            self.ctl.settimeout(timeout or self.timeout)
            self.ctl.sendall(json.dumps(req).encode() + b"\n")
            while b"\n" not in self.rbuf:
                d = self.ctl.recv(1 << 20)
                if not d:
                    raise EOFError
                self.rbuf += d
        except (EOFError, BrokenPipeError, ConnectionResetError):
            try: self.p.wait(5)
            except subprocess.TimeoutExpired: pass
            raise Died("driver ended (exit %s) during %s" % (self.p.poll(), cmd), self.stderr())
        except socket.timeout:
            self.p.send_signal(signal.SIGQUIT)
            time.sleep(1)
            raise Died("driver did not answer %s" % cmd, self.stderr())
        line, self.rbuf = self.rbuf.split(b"\n", 1)
        r = json.loads(line)
        if isinstance(r, dict) and r.get("error"):
            raise CheckError("driver: %s" % r["error"])
        return r

    def stderr(self):
        try: return open(self.errpath, errors="replace").read()[-200000:]
        except OSError: return ""

    def close(self):
        if self.closed: return
        self.closed = True
        try: self.ctl.close()
        except OSError: pass
        try: self.p.wait(0.3)
        except subprocess.TimeoutExpired:
            self.p.kill()
            try: self.p.wait(5)
            except subprocess.TimeoutExpired: pass
        if self.udp: self.udp.close()

def datagrams(dg):
    return [(d["q"], base64.b64decode(d["d"])) for d in dg]

def decode(dg, errors=None):
    """[(seq, pack dict)] for the packs in datagrams (marker packs removed)"""
    ra = wire.Reassembler()
    out = []
    for q, b in datagrams(dg):
        for enc in ra.feed(b):
            try:
                r = wire.Rd(enc)
                p = wire.pack(r)
                if not r.end():
                    raise wire.WireError("trailing bytes after pack")
            except (wire.WireError, UnicodeDecodeError, IndexError) as e:
                (errors if errors is not None else ra.errors).append("%s: %s" % (e, enc[:80].hex()))
                continue
            if p["p"] == "text" and p["type"] == "zverif":
                continue
            p["q"] = q
            p["enc"] = len(enc)
            out.append((q, p))
    if errors is not None:
        errors.extend(ra.errors)
        if ra.frag:
            errors.append("%d packs with missing fragments" % len(ra.frag))
    return out

def parallel(fns, n=8):
    """runs callables on n threads, re-raising the first exception"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(f) for f in fns]]
