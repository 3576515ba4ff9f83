"""Scripts for the Python implementation (harness/drv_py.py)."""
import random, struct
from . import gen_codec
from .gen_codec import Gen as CGen

INTS = {"d": True, "i": True, "u": False}
BITS = {"": 32, "l": 32, "ll": 64, "h": 16, "hh": 8}


class Gen:
    def __init__(self, seed):
        self.r = random.Random("py-%s" % seed)
        self.c = CGen("py-%s" % seed)

    def integer(self, bits, signed):
        r = self.r
        k = r.randrange(6)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        if k == 0:
            v = r.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1])
        elif k == 1:
            v = r.randrange(lo, hi + 1)
        elif k == 2:
            v = r.randrange(-200, 300)
        else:
            e = r.randrange(0, bits + 1)
            v = (1 << e) + r.randrange(-2, 3)
            if r.randrange(2):
                v = -v
        return max(lo, min(hi, v))

    def text(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 5, 20, 126, 127, 128, 200]) if n is None else n
        cs = ["a", "Z", "'", "\\", "\n", "\u00e9", "\u20ac", "\U0001f600", "\x01", "\x7f", "\u07ff", "\u0800", "\uffff", "\U0010ffff"]
        return "".join(r.choice(cs[:3] if r.randrange(2) else cs) for _ in range(n))

    def spec(self):
        r = self.r
        k = r.randrange(10)
        if k < 6:
            c, f = r.choice("diu"), r.choice(list(BITS))
            return "%" + f + c, str(self.integer(BITS[f], INTS[c]))
        if k == 6:
            f = r.choice(["", "", "h", "l"])
            return "%" + (f if r.randrange(8) == 0 else "") + "s", "s:" + self.text().encode().hex()
        if k == 7:
            return "%p", "b:" + bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 64, 127, 128, 300]))).hex()
        f, n = r.choice([("", 4), ("l", 8)])
        v = r.choice([0.0, -0.0, 1.0, -1.5, 3.25, 1e10, float("inf"), -float("inf"), 0.5 ** 130, r.uniform(-1e6, 1e6)])
        try:
            b = struct.pack("<f" if n == 4 else "<d", v)
        except OverflowError:
            b = struct.pack("<f", 1.0)
        return "%" + f + r.choice("fFeEgG"), "f:" + b.hex()

    def enc(self, f, vals):
        """payload of a well formed message, to be altered"""
        out = b""
        def vi(n):
            o = b""
            while True:
                o += bytes([n & 127 | (128 if n >> 7 else 0)])
                n >>= 7
                if not n:
                    return o
        for s, v in zip(f, vals):
            c, fl = s[-1], s[1:-1]
            if c in INTS:
                n, sg = BITS[fl], INTS[c]
                x = int(v)
                t = {8: 1, 16: 3, 32: 5, 64: 7}[n] + (0 if sg else 1)
                out += bytes([t])
                if n <= 16:
                    out += (x & (1 << n) - 1).to_bytes(n // 8, "little")
                else:
                    out += vi((x << 1 ^ x >> n - 1) & (1 << n) - 1 if sg else x)
            elif c == "s":
                b = bytes.fromhex(v[2:])
                out += b"\x09" + vi(len(b) + 1) + b + b"\0"
            elif c == "p":
                b = bytes.fromhex(v[2:])
                out += b"\x0a" + vi(len(b)) + b
            else:
                b = bytes.fromhex(v[2:])
                out += bytes([11 if len(b) == 4 else 12]) + b
        return out

    def msg(self, pay, mid=None):
        return b"POMP" + struct.pack("<II", self.r.randrange(1 << 32) if mid is None else mid, 12 + len(pay)) + pay

    def mid(self):
        return self.r.choice([0, 1, 7, 255, 65536, 2 ** 31, 2 ** 32 - 1, self.r.randrange(2 ** 32)])

    def write(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 9])
        sp = [self.spec() for _ in range(n)]
        f = "".join(x[0] for x in sp)
        k = r.randrange(14)
        if k == 0 and sp:
            p = r.randrange(len(f) + 1)
            f = f[:p] + r.choice(["x", "%", "%n", "q"]) + f[p:]
        elif k == 1:
            sp.append(("%s", "s:" + ("a" * r.choice([65533, 65534, 65535, 65536])).encode().hex()))
            f += "%s"
        elif k == 2:
            f += r.choice(["%hf", "%lle", "%hhg"])
            sp.append(("", "f:0000803f"))
        return "w %d %s %s" % (self.mid(), f or "-", " ".join(x[1] for x in sp)), f, sp

    def write_read(self, i):
        """what is encoded, and read back"""
        ls = []
        for _ in range(self.r.randrange(1, 5)):
            w, f, sp = self.write()
            ls.append(w)
            ls.append("r %s -" % (f or "-"))
            if self.r.randrange(2):
                ls.append("d -")
            if self.r.randrange(3) == 0 and sp:
                g = "".join(x[0] for x in sp[:self.r.randrange(len(sp) + 1)])
                ls.append("r %s -" % (g or "-"))
        return ls + ["end"]

    def fmt_ok(self):
        sp = [self.spec() for _ in range(self.r.choice([0, 1, 1, 2, 3, 5]))]
        return [x[0] for x in sp], [x[1] for x in sp]

    def read_bad(self, i):
        """altered payloads"""
        r = self.r
        ls = []
        for _ in range(r.randrange(2, 8)):
            f, v = self.fmt_ok()
            p = bytearray(self.enc(f, v))
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                k = r.randrange(7)
                if k == 0 and p:
                    del p[r.randrange(len(p)):]
                elif k == 1 and p:
                    p[r.randrange(len(p))] = r.choice([0, 1, 127, 128, 255, r.randrange(256)])
                elif k == 2:
                    o = r.randrange(len(p) + 1)
                    p[o:o] = bytes(r.choice([0, 128, 255, 1, 9, 10]) for _ in range(r.randrange(1, 4)))
                elif k == 3 and p:
                    del p[r.randrange(len(p))]
                elif k == 4:
                    t = r.choice([5, 6, 7, 8, 9, 10])
                    n = r.choice([1, 2, 4, 5, 8, 9, 10, 11])
                    p += bytes([t]) + bytes(r.choice([128, 255]) for _ in range(n - 1)) + bytes([r.choice([0, 1, 2, 15, 16, 127])])
                    f.append({5: "%d", 6: "%u", 7: "%lld", 8: "%llu", 9: "%s", 10: "%p"}[t])
                elif k == 5:
                    s = r.choice([b"\x09\x00", b"\x09\x01\x00", b"\x09\x02a\x01", b"\x09\x03a\x00\x00", b"\x09\x03\xc3\xa9\x00", b"\x09\x04\xc3\xa9\x00\x00",
                                  b"\x09\x03\xff\x61\x00", b"\x09\x03\xc0\x80\x00", b"\x09\x04\xed\xa0\x80\x00", b"\x0a\xff\xff\xff\xff\x0f", b"\x0a\x80\x80\x80\x80\x10"])
                    p += s
                    f.append("%s" if s[0] == 9 else "%p")
                elif f:
                    f[r.randrange(len(f))] = self.spec()[0]
            m = self.msg(bytes(p)).hex()
            ls.append("r %s %s" % ("".join(f) or "-", m))
            if r.randrange(3) == 0:
                ls.append("d " + m)
        return ls + ["end"]

    def stream(self, i):
        """streams, cut anywhere"""
        r = self.r
        s = self.c.stream()
        ls = ["pn 0"]
        for mode in (0, 1, 2, 3) if len(s) < 120 else (0, 2, 3):
            c = self.c.cuts(len(s), mode)
            for a, b in zip(c, c[1:]):
                if b > a:
                    pre = r.choice([0, 0, 0, 1, 5])
                    ls.append("pf 0 %s %d" % ((bytes(r.randrange(256) for _ in range(pre)) + bytes(s[a:b])).hex(), pre))
            if r.randrange(2):
                ls.append("pn 0")
        return ls + ["end"]
