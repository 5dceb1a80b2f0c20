"""Independent decoder of the collector's wire format (the collector's side of
the protocol, written from the scouter format, not from the agent's reader)."""
import struct

class WireError(Exception):
    pass

class Rd:
    def __init__(self, b, off=0):
        self.b, self.o = b, off
    def need(self, n):
        if n < 0 or self.o + n > len(self.b):
            raise WireError("short: need %d at %d of %d" % (n, self.o, len(self.b)))
        r = self.b[self.o:self.o + n]
        self.o += n
        return r
    def u8(self): return self.need(1)[0]
    def i8(self): return struct.unpack(">b", self.need(1))[0]
    def i16(self): return struct.unpack(">h", self.need(2))[0]
    def u16(self): return struct.unpack(">H", self.need(2))[0]
    def i32(self): return struct.unpack(">i", self.need(4))[0]
    def i64(self): return struct.unpack(">q", self.need(8))[0]
    def f32(self): return struct.unpack(">f", self.need(4))[0]
    def f64(self): return struct.unpack(">d", self.need(8))[0]
    def bool(self): return self.u8() != 0
    def decimal(self):
        n = self.u8()
        if n == 0: return 0
        if n == 1: return self.i8()
        if n == 2: return self.i16()
        if n == 3:
            b = self.need(3); return int.from_bytes(b, "big", signed=True)
        if n == 4: return self.i32()
        if n == 5: return int.from_bytes(self.need(5), "big", signed=True)
        if n == 8: return self.i64()
        raise WireError("decimal length %d" % n)
    def blob(self):
        n = self.u8()
        if n == 255: n = self.u16()
        elif n == 254: n = self.i32()
        return self.need(n)
    def text(self):
        return self.blob().decode("utf-8", "surrogateescape")
    def intbytes(self):
        return self.need(self.i32())
    def end(self): return self.o == len(self.b)

def value(r):
    t = r.u8()
    if t == 0: return ("nil",)
    if t == 10: return ("bool", r.bool())
    if t == 20: return ("dec", r.decimal())
    if t == 30: return ("f32", r.f32())
    if t == 40: return ("f64", r.f64())
    if t == 50: return ("text", r.text())
    if t == 51: return ("hash", r.i32())
    if t == 60: return ("blob", r.blob())
    if t == 61: return ("ip4", r.need(4))
    if t == 70:
        n = r.decimal()
        return ("list", [value(r) for _ in range(n)])
    if t == 80:
        n = r.decimal()
        return ("map", {r.text(): value(r) for _ in range(n)})
    raise WireError("value type %d" % t)

def plain(v):
    """python view of a value"""
    if v[0] == "nil": return None
    if v[0] == "list": return [plain(x) for x in v[1]]
    if v[0] == "map": return {k: plain(x) for k, x in v[1].items()}
    return v[1]

def step(r):
    t = r.u8()
    s = {"type": t, "parent": r.decimal(), "index": r.decimal(), "start": r.decimal()}
    s["cpu"] = r.decimal()
    if t == 1:      # METHOD
        s.update(hash=r.decimal(), elapsed=r.decimal(), mcpu=r.decimal())
    elif t == 3:
        s.update(text=r.text())
    elif t == 6:    # APICALL
        s.update(txid=r.decimal(), hash=r.decimal(), elapsed=r.decimal(), acpu=r.decimal(), error=r.decimal(), opt=r.u8())
        if s["opt"] == 1: s["addr"] = r.text()
    elif t == 9:
        s.update(hash=r.decimal(), time=r.decimal(), value=r.decimal())
    elif t == 14:
        s.update(txid=r.decimal(), hash=r.decimal(), elapsed=r.decimal(), threaded=r.u8())
    elif t == 17:
        s.update(hash=r.decimal(), elapsed=r.decimal(), level=r.decimal(), params=r.text())
    else:
        raise WireError("step type %d" % t)
    return s

def steps(b):
    r = Rd(b)
    out = []
    while not r.end():
        out.append(step(r))
    return out

def pack(r):
    """one pack; returns a dict with 'p' = its kind"""
    t = r.u8()
    if t == 10:
        n = r.decimal()
        return {"p": "map", "m": {k: plain(v) for k, v in [(r.text(), value(r)) for _ in range(n)]}}
    if t == 21:
        return dict(p="xlog", **xlog(Rd(r.blob())))
    if t == 26:
        d = {"p": "profile", "time": r.decimal(), "objhash": r.decimal(), "service": r.decimal(), "txid": r.i64()}
        b = r.blob()
        d["size"] = len(b)
        d["steps"] = steps(b)
        return d
    if t == 50:
        return {"p": "text", "type": r.text(), "hash": r.i32(), "text": r.text()}
    if t == 60:
        d = {"p": "perf", "time": r.i64(), "obj": r.text(), "timetype": r.u8()}
        v = value(r)
        d["data"] = plain(v)
        d["types"] = {k: x[0] for k, x in v[1].items()} if v[0] == "map" else {}
        return d
    if t == 70:
        d = {"p": "alert", "time": r.i64(), "level": r.u8(), "objtype": r.text(), "objhash": r.i32(), "title": r.text(), "msg": r.text()}
        d["tags"] = plain(value(r))
        return d
    if t == 80:
        d = {"p": "object", "objtype": r.text(), "objhash": r.decimal(), "objname": r.text(), "addr": r.text(),
             "version": r.text(), "alive": r.bool(), "wakeup": r.decimal()}
        d["tags"] = plain(value(r))
        return d
    raise WireError("pack type %d" % t)

def xlog(r):
    d = {}
    d["endtime"] = r.decimal(); d["objhash"] = r.decimal(); d["service"] = r.decimal()
    d["txid"] = r.i64(); d["caller"] = r.i64(); d["gxid"] = r.i64()
    d["elapsed"] = r.decimal(); d["error"] = r.decimal()
    d["cpu"] = r.decimal(); d["sqlcount"] = r.decimal(); d["sqltime"] = r.decimal()
    d["ip"] = r.blob(); d["kbytes"] = r.decimal(); d["status"] = r.decimal()
    d["userid"] = r.decimal(); d["useragent"] = r.decimal(); d["referer"] = r.decimal(); d["group"] = r.decimal()
    d["apicount"] = r.decimal(); d["apitime"] = r.decimal()
    d["country"] = r.text(); d["city"] = r.decimal(); d["xtype"] = r.u8()
    d["login"] = r.decimal(); d["desc"] = r.decimal(); d["webhash"] = r.decimal(); d["webtime"] = r.decimal()
    d["hasdump"] = r.u8(); d["thread"] = r.decimal(); d["text1"] = r.text(); d["text2"] = r.text()
    d["qh"] = r.decimal(); d["qt"] = r.decimal(); d["qh2"] = r.decimal(); d["qt2"] = r.decimal()
    d["text3"] = r.text(); d["text4"] = r.text(); d["text5"] = r.text()
    d["pcount"] = r.decimal(); d["b3"] = r.bool(); d["psize"] = r.decimal(); d["discard"] = r.u8(); d["ignore"] = r.bool()
    if not r.end():
        raise WireError("xlog trailing bytes")
    return d

class Reassembler:
    """datagrams -> encoded packs, as the collector sees them"""
    def __init__(self):
        self.frag = {}
        self.errors = []
    def feed(self, b):
        """list of encoded packs completed by this datagram"""
        tag = b[:4]
        if tag == b"CAFE":
            return [b[4:]]
        if tag == b"CAFN":
            n = struct.unpack(">h", b[4:6])[0]
            out, off = [], 6
            body = b[6:]
            # packs carry no length: decode to find the boundaries
            r = Rd(body)
            for _ in range(n):
                s = r.o
                try:
                    pack(r)
                except WireError as e:
                    self.errors.append("batch: %s" % e)
                    return out
                out.append(body[s:r.o])
            if not r.end():
                self.errors.append("batch has %d trailing bytes" % (len(body) - r.o))
            return out
        if tag == b"CAFM":
            r = Rd(b, 4)
            r.i32(); pk = r.i64(); total = r.i16(); num = r.i16(); data = r.blob()
            if not r.end():
                self.errors.append("fragment has trailing bytes")
            f = self.frag.setdefault(pk, {"total": total, "parts": {}})
            if f["total"] != total or num in f["parts"] or not 0 <= num < total:
                self.errors.append("bad fragment %d/%d" % (num, total))
                return []
            f["parts"][num] = data
            if len(f["parts"]) == total:
                del self.frag[pk]
                return [b"".join(f["parts"][i] for i in range(total))]
            return []
        self.errors.append("unknown datagram %r" % b[:8])
        return []

def hash_string(s):
    """the collector's text hash: CRC-32 as a signed int (0 for the empty text)"""
    import zlib
    if s == "": return 0
    h = zlib.crc32(s.encode("utf-8", "surrogateescape"))
    return h - (1 << 32) if h >= 1 << 31 else h

# ---------------------------------------------------------------- encoding (the collector's side)
def e_dec(n):
    if n == 0: return b"\0"
    for k, c in ((1, "b"), (2, "h"), (4, "i"), (8, "q")):
        if -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1): return bytes([k]) + struct.pack(">" + c, n)
    raise WireError("decimal %d" % n)
def e_blob(b):
    n = len(b)
    if n <= 253: return bytes([n]) + b
    if n <= 65535: return b"\xff" + struct.pack(">H", n) + b
    return b"\xfe" + struct.pack(">i", n) + b
def e_text(s):
    return e_blob(s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape"))
def e_value(v):
    if v is None: return b"\0"
    if isinstance(v, bool): return b"\x0a" + bytes([v])
    if isinstance(v, int): return b"\x14" + e_dec(v)
    if isinstance(v, float): return b"\x28" + struct.pack(">d", v)
    if isinstance(v, str): return b"\x32" + e_text(v)
    if isinstance(v, bytes): return b"\x3c" + e_blob(v)
    if isinstance(v, (list, tuple)): return b"\x46" + e_dec(len(v)) + b"".join(e_value(x) for x in v)
    if isinstance(v, dict): return b"\x50" + e_dec(len(v)) + b"".join(e_text(k) + e_value(x) for k, x in v.items())
    raise WireError("value %r" % (v,))
def e_map(d):
    return b"\x0a" + e_dec(len(d)) + b"".join(e_text(k) + e_value(x) for k, x in d.items())
def e_frame(body):
    return struct.pack(">i", len(body)) + body
def e_request(cmd, pack):
    return e_frame(e_text(cmd) + (pack if isinstance(pack, bytes) else e_map(pack)))
