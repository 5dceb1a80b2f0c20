"""Programs over the tracing API: concrete arguments for generated programs,
running them on the real agent, and their histories."""
import wire
from vlib import *

PATHS = ["/", "/a", "/api/v1/users", "/x/y/z", "/order/%d", "/é", "/a/", "/x//y/", "/A;v=1", "/index.html"]
ADDRS = ["10.1.2.3:8080", "192.168.0.1:1", "127.0.0.1:65535", "1.2.3.4", "255.255.255.255:80"]
LEVELS = [0, 1, 2, 3]

class Decor:
    def __init__(self, rng, tag, iphdr=None, plain=False, blank=False):
        self.rng, self.tag, self.n, self.iphdr, self.plain, self.blank = rng, tag, 0, iphdr, plain, blank
    def text(self, kind):
        self.n += 1
        r = self.rng
        t = "%s-%s-%d" % (kind, self.tag, self.n)
        if not self.plain and r.random() < 0.1:
            t += r.choice([" with space", "é", "한글", "\t", "," , "x" * 300, "x" * 300, "y" * 1200, "é" * 3000, "=", "\u0003", " ", "/", "()", "?a=1", ":80"])
            if r.random() < 0.3: t = r.choice([" ", "/", "\t", "_", "#"]) + t
        return t
    def req(self, headers=True):
        r = self.rng
        h = {}
        if r.random() < 0.8: h["User-Agent"] = self.text("ua")
        if r.random() < 0.7: h["Referer"] = self.text("ref")
        if self.iphdr and r.random() < 0.7:
            h[self.iphdr] = r.choice(["7.7.7.7", "8.8.8.8:99", "9.9.9.9"])
        p = r.choice(PATHS)
        if "%d" in p: p = p % r.randrange(1000)
        q = r.choice(["", "", "?q=%d&z=1" % r.randrange(100)])
        return {"method": r.choice(["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "get"]), "url": p + q, "addr": r.choice(ADDRS), "headers": h}
    def op(self, o):
        r = self.rng
        o = dict(o)
        k = o["o"]
        if k in ("start",):
            o["name"] = self.text("svc"); o["ip"] = r.choice(ADDRS + ["", "not-an-ip"] if not self.plain else ADDRS)
        elif k == "starthttp":
            o["req"] = self.req()
        elif k == "endhttp":
            if r.random() < 0.8: o["status"] = r.choice([200, 201, 302, 404, 500, 599, 0, 100, 600, 999, 100000])
        elif k in ("err", "errf"):
            o["m"] = self.text("err") if not self.blank or r.random() < 0.93 else ""
        elif k == "name":
            o["name"] = self.text("renamed") if not self.blank or r.random() < 0.93 else ""
        elif k == "msg":
            o["m"] = self.text("msg")
        elif k == "addstep":
            o["m"] = self.text("step"); o["t"] = r.randrange(1000)
        elif k == "hmsg":
            o["m"] = self.text("hmsg"); o["v"] = r.choice([0, 1, -1, 200, 70000, 2**31 - 1]); o["t"] = r.choice([0, 5, -1, 1000])
        elif k == "pmsg":
            o["l"] = r.choice(LEVELS); o["m"] = self.text("pmsg"); o["t"] = r.choice([0, 7, 300]); o["ps"] = [self.text("p") for _ in range(r.randrange(0, 4))]
        elif k == "set":
            o["f"] = r.choice(["Login", "Desc", "Text1", "Text2", "Text3", "Text4", "Text5", "Userid", "SqlCount", "SqlTime"])
            o["v"] = self.text(o["f"]); o["n"] = r.choice([0, 1, 77, 40000, -1, 2**31 - 1])
        elif k == "method":
            o["name"] = self.text("method")
            if r.random() < 0.25: o["params"] = [r.choice([self.text("arg"), 5, None]) for _ in range(r.randrange(1, 3))]
        elif k == "api":
            o["name"] = self.text("api"); o["addr"] = r.choice(["", self.text("addr")])
        elif k == "apiprop":
            o["name"] = self.text("api"); o["addr"] = r.choice(["", self.text("addr")])
            if r.random() < 0.95: o["req"] = {"method": "GET", "url": "/call", "headers": {}, "nilheader": r.random() < 0.2}
        elif k == "endapi":
            if r.random() < 0.35: o["err"] = self.text("callerr")
        elif k == "advance":
            o["ms"] = r.choice([1, 5, 17, 250, 1000, 1999])
        elif k == "go":
            o["name"] = self.text("go")
            c = o["k"]
            body = [self.op({"o": x, "c": c}) for x in r.choices(["msg", "err", "errf", "name", "hmsg", "end", "set", "nop"], [5, 1, 1, 1, 2, 1, 1, 1], k=r.randrange(0, 4))]
            if r.random() < 0.4:
                s = "g%s%d" % (c, self.n)
                body += [self.op({"o": "method", "c": c, "s": s}), self.op({"o": "msg", "c": c}), self.op({"o": "endmethod", "c": c, "s": s})]
            if r.random() < 0.25:
                s = "h%s%d" % (c, self.n)
                body += [self.op({"o": "apiprop", "c": c, "s": s}), self.op({"o": "endapi", "c": c, "s": s})]
            if r.random() < 0.3 and len(c) < 8:
                body.append(self.op({"o": "go", "c": c, "k": c + "k"}))
                body.append({"o": "wait", "k": c + "k"})
            if r.random() < 0.08:
                body.append({"o": "goexit"})
            o["body"] = body
        return o
    def program(self, hist):
        out = []
        for o in hist:
            out.append(self.op(o))
            if o["o"] == "go":
                out.append({"o": "wait", "k": o["k"]})
        return out

def flat_strings(x, acc):
    if isinstance(x, str): acc.add(x)
    elif isinstance(x, dict):
        for v in x.values(): flat_strings(v, acc)
    elif isinstance(x, (list, tuple)):
        for v in x: flat_strings(v, acc)

class Texts:
    """hash -> text, from the strings the harness used and the agent's own"""
    def __init__(self):
        self.h = {0: ""}
    def learn(self, strings):
        for s in strings:
            self.h[wire.hash_string(s)] = s
    def get(self, h):
        return self.h.get(h, "?%d" % h)

def start_agent(ctx, conf=None, **kw):
    a = ctx.agent(conf=conf, **kw)
    a.call("pause", ms=900)
    a.call("scale", f=0.02)
    time.sleep(0.15)
    a.call("ping", quiesce=True, take=True)
    a.call("baseline")
    return a

def run_program(a, ops, batch=None):
    """runs a one-thread program with a frozen clock; returns (events, packs, result)"""
    a.call("reset")
    a.call("seq", ops=ops)
    r = a.call("ping", quiesce=True, take=True)
    return collect(a, r)

def collect(a, r):
    if not r.get("mark"):
        raise CheckError("the send queue did not flush: %s" % {k: r.get(k) for k in ("mark", "quiet", "ngo")})
    errs = []
    packs = decode(r["dg"], errs)
    ev = sorted(r["ev"], key=lambda e: e["q"])
    return ev, packs, errs, r
