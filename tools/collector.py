"""The collector's side of the command channel."""
import select, socket, struct, time
import wire

class Eof(Exception):
    pass
class Mute(Exception):
    """nothing came in time"""
class Second(Exception):
    """another connection was made while this one is open"""

class Collector:
    def __init__(self, port=0, host="127.0.0.1"):
        self.host = host
        self.open(port)
    def open(self, port=0):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind((self.host, port)); s.listen(64)
        self.sock, self.port = s, s.getsockname()[1]
    def close(self):
        if self.sock: self.sock.close()
        self.sock = None
    def accept(self, timeout=20):
        r, _, _ = select.select([self.sock], [], [], timeout)
        if not r: return None
        c, _ = self.sock.accept()
        return Conn(c, self.sock)
    def connect(self, timeout=20):
        """accepts and reads the greeting, skipping connections that were given up meanwhile"""
        end = time.time() + timeout
        while time.time() < end:
            c = self.accept(max(0.01, end - time.time()))
            if not c: return None
            try:
                c.greeting(max(0.5, end - time.time()))
                return c
            except (Eof, Mute):
                c.cut()
        return None

class Conn:
    def __init__(self, s, listen=None):
        self.s, self.buf, self.listen = s, b"", listen
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.magic = self.hash = None
    def more(self, end):
        """waits for bytes; what is closed is closed before another connection is made"""
        left = end - time.time()
        if left <= 0: raise Mute
        r, _, _ = select.select([self.s] + ([self.listen] if self.listen else []), [], [], left)
        if not r: raise Mute
        if self.s not in r:
            time.sleep(0.3)
            if not select.select([self.s], [], [], 0)[0]: raise Second
        self.s.settimeout(1)
        try: d = self.s.recv(1 << 16)
        except OSError: raise Eof
        if not d: raise Eof
        return d
    def need(self, n, end):
        while len(self.buf) < n: self.buf += self.more(end)
        r, self.buf = self.buf[:n], self.buf[n:]
        return r
    def greeting(self, timeout=20):
        b = self.need(8, time.time() + timeout)
        self.magic, self.hash = struct.unpack(">Ii", b)
        return self.magic, self.hash
    def send(self, b, cuts=(), gap=0.0):
        """in pieces cut at the given places"""
        last = 0
        try:
            self.s.settimeout(20)
            for c in list(sorted(set(cuts))) + [len(b)]:
                if c <= last or c > len(b): continue
                self.s.sendall(b[last:c]); last = c
                if gap: time.sleep(gap)
        except OSError:
            raise Eof
    def response(self, blobs=False, timeout=20):
        """one response: its packs (or blobs)"""
        end, items, self.got = time.time() + timeout, [], 0
        while True:
            f = self.need(1, end)[0]; self.got += 1
            if f == 4: return items
            if f != 3: raise wire.WireError("flag %d in a response" % f)
            if blobs:
                n = self.need(1, end)[0]
                if n == 255: n = struct.unpack(">H", self.need(2, end))[0]
                elif n == 254: n = struct.unpack(">i", self.need(4, end))[0]
            else:
                n = struct.unpack(">i", self.need(4, end))[0]
            if n < 0: raise wire.WireError("negative length in a response")
            items.append(self.need(n, end))
    def request(self, cmd, pack=None, blobs=False, timeout=20):
        self.send(wire.e_request(cmd, {} if pack is None else pack))
        return self.response(blobs, timeout)
    def ask(self, cmd, pack=None, timeout=20):
        """a request answered by one map"""
        r = self.request(cmd, pack, False, timeout)
        if len(r) != 1: raise wire.WireError("%d packs in the answer to %s" % (len(r), cmd))
        rd = wire.Rd(r[0]); p = wire.pack(rd)
        if p["p"] != "map" or not rd.end(): raise wire.WireError("answer to %s is not one map" % cmd)
        return p["m"]
    def eof(self, timeout=20):
        """True when the agent closed; whatever else arrives is kept"""
        end = time.time() + timeout
        try:
            while True: self.buf += self.more(end)
        except Eof: return True
        except Mute: return False
    def cut(self, reset=False):
        try:
            if reset: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.s.close()
        except OSError: pass
