"""Scripts for the codec driver. A script is (id, [lines]); see harness/drv_codec.c."""
import random, struct

I8, U8, I16, U16, I32, U32, I64, U64, STR, BUF, F32, F64, FD = range(1, 14)
WIDTH = {I8: 1, U8: 1, I16: 2, U16: 2, I32: 4, U32: 4, I64: 8, U64: 8}
SIGNED = {I8, I16, I32, I64}
FMT = {I8: "%hhd", U8: "%hhu", I16: "%hd", U16: "%hu", I32: "%d", U32: "%u", I64: "%lld", U64: "%llu",
       STR: "%s", BUF: "%p%u", F32: "%f", F64: "%lf", FD: "%x"}
ALT = {I8: ["%hhi"], I16: ["%hi"], I32: ["%i"], I64: ["%lli", "%ld", "%li"], U64: ["%lu"],
       F32: ["%F", "%e", "%E", "%g", "%G"], F64: ["%le", "%lg", "%lG"]}

def hx(b):
    """hex of bytes with long runs abbreviated"""
    if not b:
        return "-"
    out, i = [], 0
    while i < len(b):
        j = i
        while j < len(b) and b[j] == b[i]:
            j += 1
        if j - i > 8:
            out.append("%02x*%d." % (b[i], j - i))
        else:
            out.append("%02x" % b[i] * (j - i))
        i = j
    return "".join(out)

def varint(n):
    o = b""
    while True:
        x = n & 127
        n >>= 7
        if n:
            o += bytes([x | 128])
        else:
            return o + bytes([x])

def header(mid, n):
    return b"POMP" + struct.pack("<II", mid & 0xffffffff, n & 0xffffffff)

class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ---- values: bytes as written in memory, little endian ----
    def intval(self, t):
        r, w = self.r, WIDTH[t] * 8
        k = r.randrange(8)
        if k == 0:
            v = r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1])
        elif k <= 3:
            v = (1 << r.choice([6, 7, 8, 13, 14, 15, 20, 21, 22, 27, 28, 29, 31, 34, 35, 42, 49, 56, 62, 63])) \
                + r.choice([-1, 0, 1])
        elif k == 4:
            v = -((1 << r.choice([5, 6, 7, 13, 14, 20, 27, 34, 41, 48, 55, 62])) + r.choice([-1, 0, 1]))
        elif k == 5:
            v = r.randrange(-130, 130)
        else:
            v = r.getrandbits(w)
        return (v & ((1 << w) - 1)).to_bytes(w // 8, "little")

    def text(self, n, utf=False):
        r = self.r
        if n > 200:
            return bytes([r.choice(b"abcxyz")]) * (n - 3) + b"end"
        k = r.randrange(3)
        if k == 0:
            return bytes(r.randrange(1, 256) for _ in range(n))
        return bytes(r.choice(b"abcdefgh ',{}:%\"\n") for _ in range(n))

    def length(self, big):
        r = self.r
        k = r.randrange(20)
        if big and k == 0:
            return r.choice([16381, 16382, 16383, 16384, 65533, 65534])
        if k < 4:
            return r.choice([125, 126, 127, 128, 129, 243, 244, 255, 256, 300, 512])
        return r.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 20])

    def value(self, t, big=True):
        r = self.r
        if t in WIDTH:
            return self.intval(t)
        if t == STR:
            return self.text(self.length(big))
        if t == BUF:
            n = self.length(big)
            if n > 200:
                return bytes([r.randrange(256)]) * (n - 2) + b"\0\1"
            return bytes(r.randrange(256) for _ in range(n))
        if t == F32:
            if r.randrange(2):
                return struct.pack("<f", r.choice([0.0, -0.0, 1.5, -2.25, 1e30, 1e-40, float("inf"), float("-inf"), 3.14159, 16777216.0, 0.1]))
            return r.getrandbits(31).to_bytes(4, "little") if r.randrange(4) else b"\0\0\xc0\x7f"
        if t == F64:
            if r.randrange(2):
                return struct.pack("<d", r.choice([0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, float("inf"), float("-inf"), 3.141592653589793, 0.1, 1e22]))
            return r.getrandbits(63).to_bytes(8, "little")
        raise ValueError(t)

    def f32d(self):
        """double exactly representable as a float"""
        while True:
            b = self.value(F32)
            f = struct.unpack("<f", b)[0]
            if f == f:
                return struct.pack("<d", f)

    def enc(self, t, v):
        if t in (I8, U8, I16, U16, F32, F64):
            return bytes([t]) + v
        if t in (U32, U64):
            return bytes([t]) + varint(int.from_bytes(v, "little"))
        if t in (I32, I64):
            n = int.from_bytes(v, "little", signed=True)
            w = 8 * len(v)
            return bytes([t]) + varint(((n << 1) ^ (n >> (w - 1))) & ((1 << w) - 1))
        if t == STR:
            return bytes([t]) + varint(len(v) + 1) + v + b"\0"
        if t == BUF:
            return bytes([t]) + varint(len(v)) + v
        raise ValueError(t)

    def types(self, n, fd=False):
        ts = list(range(1, 13)) + ([FD] * 2 if fd else [])
        return [self.r.choice(ts) for _ in range(n)]

    def mid(self):
        return self.r.choice([0, 1, 42, 0x504d4f50, 0x7fffffff, 0x80000000, 0xffffffff, self.r.getrandbits(32)])

    def wire(self, n=None, big=False):
        """a valid message"""
        n = self.r.randrange(5) if n is None else n
        p = b"".join(self.enc(t, self.value(t, big)) for t in self.types(n))
        return header(self.mid(), 12 + len(p)) + p

    # ---- P01 ---------------------------------------------------------------
    def stream(self):
        r = self.r
        out = b""
        for _ in range(r.randrange(1, 7)):
            k = r.randrange(12)
            if k <= 3:
                out += self.wire(big=False) if r.randrange(3) else header(self.mid(), 12)
            elif k == 4:       # garbage rich in magic bytes
                out += bytes(r.choice(b"POMP\x00POMPQ") for _ in range(r.randrange(1, 12)))
            elif k == 5:       # partial magic before a message
                out += r.choice([b"P", b"PO", b"POM", b"PP", b"POP", b"POMPO", b"POMPOM", b"POMO", b"POMM"])
            elif k == 6:       # bad size
                out += header(self.mid(), r.choice([0, 1, 4, 11]))
            elif k == 7:       # size that denotes a message made of the next bytes
                w = self.wire(1)
                out += header(self.mid(), 12 + len(w)) + w
            elif k == 8:       # payload that looks like headers
                p = r.choice([b"POMP" * 3, header(5, 12), header(6, 20), b"\0" * 12, b"PO"])
                out += header(self.mid(), 12 + len(p)) + p
            elif k == 9:
                out += bytes(r.randrange(256) for _ in range(r.randrange(1, 20)))
            elif k == 10:
                out += header(self.mid(), r.choice([0x40000000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff4]))
            else:
                n = r.choice([243, 244, 245, 256, 300, 500])
                out += header(self.mid(), 12 + n) + bytes([r.randrange(256)]) * n
        if r.randrange(3) == 0:
            out = out[:r.randrange(len(out) + 1)]
        return out

    def cuts(self, n, mode):
        r = self.r
        if mode == 0:
            return [0, n]
        if mode == 1:
            return list(range(n + 1))
        if mode == 2:
            c = r.randrange(n + 1)
            return [0, c, n]
        k = r.randrange(1, 8)
        return sorted(set([0, n] + [r.randrange(n + 1) for _ in range(k)]))

    def p01(self, i):
        r = self.r
        s = self.stream()
        ls = ["pnew 0"]
        m = 0
        for mode in (0, 1, 2, 3) if len(s) < 120 else (0, 2, 3):
            c = self.cuts(len(s), mode)
            pol = "".join(r.choice("kdr") if r.randrange(3) else "r" for _ in range(r.randrange(1, 4)))
            # at most ~12 messages per stream: keep few
            pol = pol if mode != 0 else pol[:-1] + r.choice("dr")
            pol = pol[:-1] + (pol[-1] if pol[-1] != "k" else "d")
            for a, b in zip(c, c[1:]):
                if b > a:
                    ls.append("pfeed 0 %d %s %s" % (m, pol, hx(s[a:b])))
                    # released later, maybe in the middle of another one
                    while r.randrange(4) == 0:
                        ls.append("prel 0 %d" % (m + r.randrange(3)))
            m += 12
            # leave the pending part or restart
            if r.randrange(2):
                ls += ["pdel 0", "pnew 0"]
        ls += ["cleanup", "end"]
        return ls

    # ---- P02 ---------------------------------------------------------------
    def p02(self, i, big=True):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 12])
        ts = self.types(n)
        big = big and r.randrange(8) == 0
        ls = ["mnew 0", "minit 0 %x" % self.mid(), "enew 0", "einit 0 0"]
        for t in ts:
            if t == STR and big and r.randrange(4) == 0:
                ls.append("ew 0 9 %s 0" % hx(self.text(r.choice([65535, 65536, 70000]))))
            if r.randrange(12) == 0 and t in (STR, BUF):
                ls.append("ew 0 %d null 0" % t)
                continue
            ls.append("ew 0 %d %s 0" % (t, hx(self.value(t, big))))
        ls += ["mfin 0", "dnew 0", "dinit 0 0"]
        for t in ts:
            if r.randrange(5) == 0:
                ls.append("dr 0 %d" % r.choice([x for x in range(1, 14) if x != t]))
            ls.append("dr 0 %d" % (19 if t == STR and r.randrange(2) else 20 if t == BUF and r.randrange(2) else t))
        ls.append("dr 0 %d" % r.randrange(1, 14))
        if r.randrange(2):   # read by somebody else
            ls += ["mcopy 1 0", "mdel 0", "dinit 0 1"]
            ls += ["dr 0 %d" % t for t in ts]
        ls += ["cleanup", "end"]
        return ls

    # ---- P03 ---------------------------------------------------------------
    def mutate(self, b):
        r = self.r
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not b:
                b = bytearray([r.randrange(14)])
                continue
            i = r.randrange(len(b))
            k = r.randrange(7)
            if k == 0:
                b[i] ^= 1 << r.randrange(8)
            elif k == 1:
                b[i] = r.choice([0, 1, 0x7f, 0x80, 0xff, 9, 10, 13, 14])
            elif k == 2:
                del b[i:]
            elif k == 3:
                del b[i]
            elif k == 4:
                b[i:i] = bytes([r.choice([0x80, 0xff, 0x01, 0x81])]) * r.choice([1, 4, 9, 10, 12])
            elif k == 5:
                b[i:i] = r.choice([varint(1 << 32), varint((1 << 64) - 1), varint((1 << 31)), varint(65536), varint(1 << 16),
                                   varint((1 << 32) + 3), varint((1 << 16) + 1), varint(0xffffffff), b"\xff" * 9 + b"\x7f", b"\x80" * 9 + b"\x01", b"\x80\x00"])
            else:
                b[i:i] = bytes([r.randrange(15)])
        return bytes(b)

    def special(self):
        r = self.r
        return r.choice([
            b"\x09\x00", b"\x09\x01\x00", b"\x09\x01a", b"\x09\x03ab", b"\x09\x03abc", b"\x09\x03a\0\0", b"\x09\x02\0\0",
            b"\x09\x80\x80\x04" + b"a", b"\x09" + varint(65536) + b"a" * 4, b"\x0a\x00", b"\x0a", b"\x0a\x05abc", b"\x0a" + varint(1 << 32),
            b"\x0a" + varint((1 << 32) + 2) + b"ab", b"\x0a" + varint(0xffffffff) + b"x", b"\x05" + b"\x80" * 4 + b"\x10",
            b"\x05" + b"\xff" * 4 + b"\x0f", b"\x06" + b"\xff" * 4 + b"\x1f", b"\x07" + b"\xff" * 9 + b"\x01", b"\x08" + b"\xff" * 9 + b"\x02",
            b"\x08" + b"\xff" * 10 + b"\x01", b"\x08" + b"\x80" * 9 + b"\x00", b"\x06\x80\x00", b"\x0d\0\0\0\0", b"\x0d\0", b"\x0d\x01\x02\x03\x04\x05",
            b"\x00", b"\x0e", b"\xff", b"\x0b\1\2\3", b"\x0c\1\2\3\4\5\6\7", b"\x03\1", b"\x01", b"\x09" + varint(65535) + b"q" * 65534 + b"\0",
            b"\x09" + varint(65536) + b"q" * 65535 + b"\0"])

    def readfmt(self, ts):
        """format and slot kinds for reading the given types"""
        f, k = "", ""
        for t in ts:
            x = self.r.choice([FMT[t]] * 3 + ALT.get(t, [FMT[t]]))
            f += x.replace("%s", "%ms")
            k += "s" if t == STR else "pi" if t == BUF else "x" if t == FD else "i"
        return f, k

    def p03(self, i):
        r = self.r
        ts = self.types(r.randrange(0, 6), fd=False)
        body = b"".join(self.enc(t, self.value(t, False)) for t in ts)
        k = r.randrange(10)
        if k == 0:
            body += self.special()
        elif k == 1:
            body = self.special() + body
        elif k == 2:
            body = self.special()
        elif k == 3:
            body = bytes(r.randrange(256) for _ in range(r.randrange(40)))
        elif k == 4:
            body = bytes(r.randrange(1, 14) for _ in range(r.randrange(30)))
        elif k < 9:
            body = self.mutate(body)
        msg = header(self.mid(), 12 + len(body)) + body
        ls = []
        h = r.randrange(8)
        if h == 0:
            ls += ["pnew 0", "pfeed 0 0 k %s" % hx(msg)]
        elif h == 1:    # wrong header
            bad = r.choice([msg[:r.randrange(len(msg))], b"POMQ" + msg[4:], msg + b"x", header(1, len(msg) + 1) + msg[12:], b"",
                            header(1, 0) + body, header(1, 12) + body])
            ls += ["bnewd 1 %s" % hx(bad), "mfrom 1 1", "bnewd 0 %s" % hx(msg), "mfrom 0 0"]
        else:
            ls += ["bnewd 0 %s" % hx(msg), "mfrom 0 0"]
        ls += ["dnew 0", "dinit 0 0"]
        for t in ts + [r.randrange(1, 14)] * 2:
            t = t if r.randrange(6) else r.randrange(1, 14)
            ls.append("dr 0 %d" % (19 if t == STR and r.randrange(2) else 20 if t == BUF and r.randrange(2) else t))
        # by format
        f, kk = self.readfmt(ts)
        if r.randrange(3) == 0:
            x = self.types(r.randrange(1, 4), fd=True)
            f2, k2 = self.readfmt(x)
            f, kk = f + f2, kk + k2
        if r.randrange(4) == 0:
            f += r.choice(["%p%d", "%p", "%z", "x", "%", "%pd", "%lx", "%ls", "%c", "%hhf", "%s", "%5d"])
        if f:
            ls.append("mread 0 %s %s" % (hx(f.encode()), kk or "-"))
            ls += ["dinit 0 0", "drf 0 %s %s" % (hx(f.encode()), kk or "-"), "drf 0 %s %s" % (hx(f.encode()), kk or "-")]
        ls += ["mdump 0 400", "madump 0"]
        # types by exhaustive probing: restart the decoder and read whatever it is
        ls += ["dinit 0 0"]
        for _ in range(3):
            ls += ["dr 0 %d" % t for t in r.sample(range(1, 14), 6)]
        ls += ["cleanup", "end"]
        return ls

    # ---- P04 ---------------------------------------------------------------
    def argfor(self, t, v):
        """(variadic argument(s), textual argument(s))"""
        r = self.r
        if t in WIDTH:
            n = int.from_bytes(v, "little", signed=t in SIGNED)
            c = (n & ((1 << 64) - 1)).to_bytes(8, "little")
            txt = str(n)
            if n >= 0 and r.randrange(6) == 0:
                txt = hex(n)
            return ["i:" + c.hex()], ["t:%s:i:%s" % (txt.encode().hex(), c.hex())]
        if t == STR:
            return ["s:" + hx(v)], ["t:%s:s:%s" % (hx(v), hx(v))]
        if t == BUF:
            n = len(v).to_bytes(8, "little").hex()
            h = v.hex() if r.randrange(2) else v.hex().upper()
            return ["p:" + hx(v), "i:" + n], ["t:%s:p:%s" % (hx(h.encode()), hx(v)), "t:%s:i:%s" % (str(len(v)).encode().hex(), n)]
        if t in (F32, F64):
            d = struct.unpack("<d", v)[0]
            txt = repr(d)
            return ["d:" + v.hex()], ["t:%s:d:%s" % (txt.encode().hex(), v.hex())]

    def malformed(self):
        r = self.r
        return r.choice(["x", "%", "%z", "%d%", "%d %d", "%hs", "%lls", "%p", "%p%", "%pd", "%p%d", "%llf", "%hf", "%hhf", "%lx", "%hx",
                         "%llx", "%lll", "%hh", "%c", "%%", "%5d", "%-d", "%0", "%*d", "%d\n", "%ms", "%hu%q", "%lhd", "%hld", "%hhhd", "%llld",
                         "%ls", "%hp%u", "%mp%u", "%md", "%s%n"])

    def p04(self, i):
        r = self.r
        ts = self.types(r.choice([0, 1, 2, 3, 4, 6]))
        while sum(t in (F32, F64) for t in ts) > 8:
            ts.pop()
        vals = []
        for t in ts:
            vals.append(self.f32d() if t == F32 else self.value(t, r.randrange(10) == 0))
        fm = "".join(r.choice([FMT[t]] * 3 + ALT.get(t, [])) for t in ts)
        # NaN has no textual form that gives its payload back
        for j, t in enumerate(ts):
            if t == F64 and struct.unpack("<d", vals[j])[0] != struct.unpack("<d", vals[j])[0]:
                vals[j] = struct.pack("<d", 0.5)
        va, tx = [], []
        for t, v in zip(ts, vals):
            a, b = self.argfor(t, v)
            va += a
            tx += b
        mid = self.mid()
        fh = hx(fm.encode())
        ls = ["mnew 0", "minit 0 %x" % mid, "enew 0", "einit 0 0"]
        for t, v in zip(ts, vals):
            w = v
            if t == F32:
                w = struct.pack("<f", struct.unpack("<d", v)[0])
            ls.append("ew 0 %d %s" % (t, hx(w)))
        ls += ["mobs 0", "mfin 0"]
        ls += ["mnew 1", "mwrite 1 %x %s %s" % (mid, fh if fm else r.choice(["null", "-"]), " ".join(va))]
        ls += ["mnew 2", "mwargv 2 %x %s %s" % (mid, fh if fm else "null", " ".join(tx))]
        # in pieces
        if ts:
            ls += ["mnew 3", "minit 3 %x" % mid, "einit 0 3"]
            for t, v in zip(ts, vals):
                a, b = self.argfor(t, v)
                if r.randrange(2):
                    ls.append("ewf 0 3 %s %s" % (hx(FMT[t].encode()), " ".join(a)))
                else:
                    ls.append("ewargv 0 3 %s %s" % (hx(FMT[t].encode()), " ".join(b)))
            ls += ["mfin 3"]
        # reading back by format
        f, k = self.readfmt(ts)
        fh2 = hx(f.encode())
        if ts:
            ls.append("mread %d %s %s" % (r.randrange(1, 4), fh2, k))
            ls += ["dnew 0", "dinit 0 1"]
            c = r.randrange(len(ts) + 1)
            for part in (ts[:c], ts[c:]):
                f1, k1 = self.readfmt(part)
                if part:
                    ls.append("drf 0 %s %s" % (hx(f1.encode()), k1))
            # wrong formats on reading
            bad = list(ts)
            q = r.randrange(len(bad))
            bad[q] = r.choice([x for x in range(1, 14) if x != bad[q]])
            f1, k1 = self.readfmt(bad)
            ls.append("mread 1 %s %s" % (hx(f1.encode()), k1))
            f1, k1 = self.readfmt(ts)
            ls.append("mread 1 %s %s" % (hx((f1 + self.malformed()).encode()), k1))
        # malformed formats
        for _ in range(2):
            pre = ts[:r.randrange(len(ts) + 1)]
            a = sum((self.argfor(t, v)[0] for t, v in zip(pre, vals)), [])
            b = sum((self.argfor(t, v)[1] for t, v in zip(pre, vals)), [])
            f = "".join(FMT[t] for t in pre) + self.malformed()
            mal = f[len("".join(FMT[t] for t in pre)):]
            one = ["i:0100000000000000"]
            if "p" in mal:
                tail, ttail = ["p:6162", "i:0200000000000000"], ["t:36313632:p:6162", "t:32:i:0200000000000000"]
            elif "s" in mal:
                tail, ttail = ["s:6162", "i:0200000000000000"], ["t:6162:s:6162", "t:32:i:0200000000000000"]
            else:
                tail, ttail = one * 2, ["t:31:i:0100000000000000"] * 2
            ls += ["mclr 1", "mwrite 1 7 %s %s" % (hx(f.encode()), " ".join(a + tail))]
            ls += ["mclr 2", "mwargv 2 7 %s %s" % (hx(f.encode()), " ".join(b + ttail))]
        # missing arguments (textual)
        if tx and r.randrange(2):
            c = r.randrange(len(tx))
            ls += ["mclr 2", "mwargv 2 7 %s %s" % (fh, " ".join(tx[:c]))]
        ls += ["cleanup", "end"]
        return ls

    # ---- P06 ---------------------------------------------------------------
    def p06(self, i):
        r = self.r
        ts = self.types(r.choice([0, 1, 2, 3, 5, 8]))
        ls = ["mnew 0", "minit 0 %x" % self.mid(), "enew 0", "einit 0 0"]
        tot = 16
        for t in ts:
            v = self.value(t, False)
            if t in (F32, F64):
                ls.append("ftab " + v.hex())
            ls.append("ew 0 %d %s" % (t, hx(v)))
            tot += 8 + (len(v) if t == STR else 6)
            if r.randrange(8) == 0:
                ls.append("mdump 0 %d" % r.randrange(60))   # not finished
        ls += ["mfin 0", "mobs 0"]
        sizes = list(range(0, 12)) + [r.randrange(tot + 10) for _ in range(6)] + [tot - 8 + j for j in range(0, 24, 3)] + [2000]
        for n in sorted(set(sizes)):
            ls.append("mdump 0 %d" % n)
        ls.append("madump 0")
        if r.randrange(3) == 0:    # sizes around the growth steps of the allocated text
            n = r.choice([400, 480, 495, 500, 505, 510, 511, 512, 513, 520, 1000, 1023, 1024, 2047, 2048, 4000])
            ls += ["mnew 1", "minit 1 7", "einit 0 1"]
            k = 0
            while k < n:
                c = min(n - k, r.choice([3, 50, 200, 500, 2000]))
                ls.append("ew 0 9 %s" % hx(b"z" * c))
                k += c + 7
            ls += ["mobs 1", "madump 1", "mdump 1 %d" % r.randrange(n + 100), "mdump 1 8000"]
        ls += ["cleanup", "end"]
        return ls

    # ---- P07 ---------------------------------------------------------------
    def p07(self, i):
        r = self.r
        ls = ["enew 0", "dnew 0"]
        m = set()
        b = set()
        einit = dinit = None
        cmd = ls.append
        for _ in range(r.choice([8, 15, 25])):
            k = r.randrange(17)
            if k == 0 or not m:
                x = r.randrange(4)
                if x in m:
                    continue
                cmd("mnew %d" % x)
                m.add(x)
                continue
            x = r.choice(sorted(m))
            if k <= 2:
                cmd("minit %d %x" % (x, self.mid()))
            elif k == 3:
                cmd("mwrite %d %x %s i:%s" % (x, self.mid(), hx(b"%u"), self.intval(U64).hex()))
            elif k == 4:
                cmd("mwrite %d %x %s i:%s s:%s" % (x, self.mid(), hx(b"%d%s"), self.intval(U64).hex(), hx(self.text(5))))
            elif k == 5:
                cmd("mwrite %d %x null" % (x, self.mid()))
            elif k == 6:
                cmd("mfin %d" % x)
            elif k == 7:
                cmd("mclr %d" % x)
            elif k == 8:
                if x == einit or x == dinit:
                    cmd("eclr 0")
                    cmd("dclr 0")
                    einit = dinit = None
                cmd("mdel %d" % x)
                m.discard(x)
            elif k == 9:
                y = r.randrange(4)
                if y not in m:
                    cmd("mcopy %d %d" % (y, x))
                    m.add(y)
            elif k == 10:
                # encoder on a message: einit only when it holds nothing yet or is fresh
                cmd("mclr %d" % x)
                cmd("minit %d %x" % (x, self.mid()))
                cmd("einit 0 %d" % x)
                einit = x
            elif k <= 12 and einit in m and einit is not None:
                t = r.randrange(1, 13)
                cmd("ew 0 %d %s %d" % (t, hx(self.value(t, False)), einit))
            elif k == 13:
                cmd("dinit 0 %d" % x)
                dinit = x
                cmd("dr 0 %d" % r.randrange(1, 13))
            elif k == 14:
                y = r.randrange(4)
                if y not in b:
                    cmd("mbuf %d %d" % (y, x))
                    b.add(y)
                    cmd("bsh %d" % y)
            elif k == 15 and b:
                y = r.choice(sorted(b))
                z = r.randrange(4)
                o = r.randrange(5)
                if o == 0:
                    cmd("bunref %d" % y)
                    b.discard(y)
                elif o == 1 and z not in m:
                    cmd("mfrom %d %d" % (z, y))
                    m.add(z)
                elif o == 2:
                    cmd("bapp %d 0102" % y)
                elif o == 3:
                    cmd("bcopy 9 %d" % y)
                    cmd("bobs 9")
                    cmd("bunref 9")
                else:
                    cmd("bobs %d" % y)
            elif k == 16:
                cmd("mdump %d %d" % (x, r.choice([0, 5, 12, 40])))
                cmd("mread %d %s i" % (x, hx(b"%u")))
                cmd("madump %d" % x)
            if r.randrange(4) == 0:
                for x in sorted(m):
                    cmd("mobs %d" % x)
        ls += ["mobs %d" % x for x in sorted(m)]
        ls += ["cleanup", "end"]
        return ls

    # ---- P08 ---------------------------------------------------------------
    def p08(self, i):
        r = self.r
        ls = []
        live = {}
        cmd = ls.append
        for _ in range(r.choice([6, 15, 30])):
            k = r.randrange(19)
            if k <= 1 or not live:
                x = r.randrange(5)
                if x in live:
                    continue
                live[x] = 1
                q = r.randrange(4)
                if q == 0:
                    cmd("bnew %d %d" % (x, r.choice([0, 0, 1, 16, 255, 256, 257, 5000])))
                elif q == 1:
                    cmd("bnewd %d %s" % (x, hx(self.value(BUF, False))))
                elif q == 2:
                    cmd("bnewg %d %d" % (x, r.choice([0, 1, 16, 256, 300])))
                else:
                    ys = [y for y in live if y != x]
                    if ys:
                        cmd("bcopy %d %d" % (x, r.choice(ys)))
                    else:
                        cmd("bnew %d 0" % x)
                continue
            x = r.choice(sorted(live))
            n = r.choice([0, 1, 2, 5, 16, 17, 100, 200, 255, 256, 257, 300, 511, 512, 513])
            if k == 2:
                if r.randrange(40) == 0:
                    cmd("brace %d %d" % (x, r.choice([1000, 30000])))
                cmd("bref %d" % x)
                live[x] += 1
            elif k == 3:
                cmd("bunref %d" % x)
                live[x] -= 1
                if not live[x]:
                    del live[x]
            elif k == 4:
                cmd("bsetlen %d %d" % (x, n))
            elif k == 5:
                cmd("bsetcap %d %d" % (x, n))
            elif k == 6:
                cmd("benscap %d %d" % (x, n))
            elif k <= 8:
                cmd("bapp %d %s" % (x, hx(self.value(BUF, False))))
            elif k == 9:
                cmd("bappb %d %d" % (x, r.choice(sorted(live))))
            elif k <= 11:
                cmd("bwr %d %d %s" % (x, n, hx(self.value(BUF, False))))
            elif k == 12:
                cmd("brd %d %d %d" % (x, r.choice([0, 0, 1, 5, n]), r.choice([0, 1, 5, n])))
            elif k == 13:
                cmd("bcrd %d %d %d" % (x, r.choice([0, 0, 1, 5, n]), r.choice([0, 1, 5, n])))
            elif k == 14:
                cmd(r.choice(["brdhuge %d %d" % (x, r.choice([1, 2, 4, 100])), "brdhuge %d 4 %d" % (x, r.choice([1, 4, 8])),
                              "bwrhuge %d %d" % (x, r.choice([1, 2, 8, 40])), "benshuge %d %d" % (x, r.choice([1, 100, 254, 255, 256, 257])),
                              "bens4g %d %d" % (x, r.choice([0, 1, 10, 256]))]))
            elif k == 15:
                cmd("bgd %d" % x)
            elif k == 16:
                cmd("bsh %d" % x)
            elif k == 17:
                cmd("bfull %d" % x)
            else:
                cmd("bobs %d" % x)
        ls += ["bfull %d" % x for x in sorted(live)]
        ls += ["cleanup", "end"]
        return ls

    # ---- P09 ---------------------------------------------------------------
    def p09(self, i):
        r = self.r
        ls = ["fopen %d" % f for f in range(3)]
        cmd = ls.append
        if i % 3 == 0:
            cmd("close0")
        cmd("enew 0")
        cmd("dnew 0")
        m, b = set(), set()
        open_ = {0, 1, 2}
        cur = None
        for _ in range(r.choice([10, 20, 30])):
            k = r.randrange(18)
            if k <= 1 or not m:
                x = r.randrange(3)
                if x not in m:
                    cmd("mnew %d" % x)
                    m.add(x)
                else:
                    if x == cur:
                        cur = None
                        cmd("eclr 0")
                    cmd("mclr %d" % x)
                cmd("minit %d %x" % (x, self.mid()))
                cmd("einit 0 %d" % x)
                cur = x
            elif k <= 5 and cur is not None:
                cmd("ew 0 13 %d %d" % (r.choice(sorted(open_)) if open_ and r.randrange(12) else r.choice([-1, 70]), cur))
            elif k == 6 and cur is not None:
                t = r.randrange(1, 13)
                cmd("ew 0 %d %s %d" % (t, hx(self.value(t, False)), cur))
            elif k == 7 and open_ and cur is not None:
                a = ["i:0500000000000000", "f:%d" % r.choice(sorted(open_))]
                if r.randrange(2):
                    cmd("ewf 0 %d %s %s" % (cur, hx(b"%u%x"), " ".join(a)))
                else:
                    cmd("ewargv 0 %d %s t:35:i:0500000000000000 t:-:f:%s" % (cur, hx(b"%u%x"), a[1][2:]))
            elif k == 8 and cur is not None:
                cmd("mfin %d" % cur)
                cmd("eclr 0")
                cur = None
            elif k == 9:
                x = r.choice(sorted(m))
                y = r.randrange(3, 6)
                if y in m:
                    cmd("mdel %d" % y)
                cmd("mcopy %d %d" % (y, x))
                m.add(y)
            elif k == 10:
                x = r.choice(sorted(m))
                if x == cur:
                    cmd("eclr 0")
                    cur = None
                cmd("mdel %d" % x)
                m.discard(x)
            elif k == 11:
                x = r.choice(sorted(m))
                y = r.randrange(4)
                if y not in b:
                    cmd("mbuf %d %d" % (y, x))
                    b.add(y)
            elif k == 12 and b:
                y = r.choice(sorted(b))
                o = r.randrange(4)
                if o == 0:
                    cmd("bunref %d" % y)
                    b.discard(y)
                elif o == 1:
                    z = r.randrange(6, 9)
                    if z in m:
                        cmd("mdel %d" % z)
                    cmd("mfrom %d %d" % (z, y))
                    m.add(z)
                elif o == 2:
                    cmd("bcopy 9 %d" % y)
                    if r.randrange(2):
                        cmd("bsetlen 9 %d" % r.choice([0, 5, 12, 13, 16, 17, 18, 22, 30]))
                    cmd("nfds")
                    cmd("bunref 9")
                else:
                    cmd("bsetlen %d %d" % (y, r.choice([12, 17, 18, 22])))
            elif k == 13:
                x = r.choice(sorted(m))
                cmd("dinit 0 %d" % x)
                for _ in range(4):
                    cmd("dr 0 %d" % r.choice([13, 13, 13, 6, 9]))
                cmd("dclr 0")
            elif k == 14 and open_:
                f = r.choice(sorted(open_))
                cmd("fclose %d" % f)
                open_.discard(f)
            elif k == 15:
                f = r.randrange(3)
                if f not in open_:
                    # a new file under another tag
                    pass
                cmd("fcheck %d" % f)
            elif k == 16:
                cmd("mread %d %s x" % (r.choice(sorted(m)), hx(b"%x")))
            else:
                x = r.choice([5, 4, 3])
                if x not in m and open_:
                    cmd("mnew %d" % x)
                    m.add(x)
                    cmd("mwrite %d 9 %s f:%d i:0700000000000000 f:%d" % (x, hx(b"%x%u%x"), r.choice(sorted(open_)), r.choice(sorted(open_))))
            cmd("nfds")
        for x in sorted(m):
            cmd("dinit 0 %d" % x)
            cmd("dr 0 13")
            cmd("dr 0 13")
        cmd("dclr 0")
        for x in sorted(m):
            cmd("mdel %d" % x)
            cmd("nfds")
        ls += ["cleanup"] + ["fclose %d" % f for f in sorted(open_)] + ["end"]
        return ls

    # ---- P26 ---------------------------------------------------------------
    def host4(self):
        r = self.r
        return ".".join(str(r.choice([0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 255, r.randrange(256)])) for _ in range(4))

    def host6(self):
        r = self.r
        g = [r.choice([0, 0, 0, 1, 0xa, 0xffff, 0x100, 0xdb8, r.getrandbits(16)]) for _ in range(8)]
        k = r.randrange(5)
        f = (lambda x: "%x" % x) if r.randrange(2) else (lambda x: "%04X" % x)
        if k == 0:
            return ":".join(f(x) for x in g)
        if k == 1:
            a = r.randrange(0, 7)
            b = r.randrange(0, 7 - a)
            return ":".join(f(x) for x in g[:a]) + "::" + ":".join(f(x) for x in g[8 - b:])
        if k == 2:
            a = r.randrange(0, 5)
            return ":".join(f(x) for x in g[:a]) + "::" + self.host4()
        if k == 3:
            return ":".join(f(x) for x in g[:6]) + ":" + self.host4()
        return r.choice(["::", "::1", "1::", "::ffff:1.2.3.4", "::1.2.3.4", "2001:db8::1:0:0:1", "fe80::1", "ff02::1", "::2:3", "0:0:0:0:0:0:0:0"])

    def addrtext(self):
        r = self.r
        k = r.randrange(12)
        port = str(r.choice([0, 1, 80, 255, 256, 9999, 10000, 65534, 65535, r.randrange(65536)]))
        if k <= 2:
            return "inet:%s:%s" % (self.host4(), port)
        if k <= 5:
            return "inet6:%s:%s" % (self.host6(), port)
        if k <= 7:
            n = r.choice([1, 2, 5, 20, 105, 106, 107, 108, 109, 120, 200])
            c = r.choice(["/tmp/a", "@", "@x", "a", "@@", "./"])
            return "unix:" + (c + "q" * 200)[:n]
        if k == 8:
            return r.choice(["inet:%s:%s" % (self.host4() + ".1", port), "inet:%s:%s" % (self.host4()[:-1] + "x", port), "inet:%s" % self.host4(),
                             "inet::80", "inet:", "inet:1.2.3.4:", "inet:1.2.3.4:70000", "inet:1.2.3.4:65536", "inet:1.2.3.4:99999", "inet:1.2.3.4:-1",
                             "inet:1.2.3.4:80x", "inet:1.2.3.4: 80", "inet:256.1.1.1:80", "inet:1.2.3:80", "inet:host:80", "inet: 1.2.3.4:80", "inet:*:80",
                             "inet:1.2.3.4:http", "inet:::1:80", "inet6:1.2.3.4:80", "inet6:::1", "inet6::::1:80", "inet6:[::1]:80", "inet6:::g:80",
                             "inet6:12345::1:80", "inet6:1:2:3:4:5:6:7:8:9:80", "inet6:1::2::3:80", "inet6:fe80::1%1:80", "inet6:fe80::1%lo:80", "inet6:::1:65536",
                             "unix:", "unix:@", "unix", "inet", "inet6", "", ":", "tcp:1.2.3.4:80", "INET:1.2.3.4:80", " unix:/a", "unix:/a b", "inet6", "inet6::80"])
        if k == 9:
            return "".join(r.choice("inetux6:@.0123456789abcdef/%") for _ in range(r.randrange(30)))
        b = list(self.addrtext())
        if b:
            i = r.randrange(len(b))
            q = r.randrange(3)
            if q == 0:
                del b[i]
            elif q == 1:
                b[i] = r.choice("inetux6:@.0123456789abcdef/g")
            else:
                b.insert(i, r.choice(":.@0f1"))
        return "".join(b)

    def sockaddr(self):
        r = self.r
        k = r.randrange(8)
        port = struct.pack(">H", r.choice([0, 80, 65535, r.randrange(65536)]))
        if k <= 1:
            return struct.pack("<H", 2) + port + bytes(r.randrange(256) for _ in range(4)) + b"\0" * r.choice([8, 8, 8, 7, 4, 20])
        if k <= 3:
            g = b"".join(struct.pack(">H", r.choice([0, 0, 0, 1, 0xffff, r.getrandbits(16)])) for _ in range(8))
            if r.randrange(4) == 0:
                g = b"\0" * 10 + b"\xff\xff" + g[:4]
            return struct.pack("<H", 10) + port + b"\0" * 4 + g + b"\0" * r.choice([4, 4, 4, 3, 0, 10])
        if k <= 6:
            n = r.choice([0, 1, 5, 20, 106, 107, 108])
            p = (r.choice([b"/", b"\0", b"\0", b"a"]) + bytes([r.choice(b"qz/")]) * 107)[:n]
            p = p.ljust(r.choice([108, 108, 108, 108, 107, 20, 120]), b"\0")
            return struct.pack("<H", 1) + p
        return struct.pack("<H", r.choice([0, 3, 16, 17, 38, 255, 256, 65535])) + b"\1" * r.choice([14, 14, 13, 30, 0])

    def p26(self, i):
        r = self.r
        ls = []
        for _ in range(12):
            s = self.addrtext().encode()
            if b"\0" in s:
                continue
            cap = r.choice([128, 128, 128, 128, 110, 109, 28, 27, 16, 15, 2, 0])
            ls.append("aparse %d %s" % (cap, hx(s)))
            if r.randrange(6) == 0:
                ls.append("areal %s %s" % (r.choice(["null", "2f726f6f74", "-"]), hx(s)))
        for _ in range(5):
            a = self.sockaddr()
            ls.append("afmt 300 %s" % hx(a))
            for n in [0, 1, 2, r.randrange(3, 60), r.randrange(3, 130)]:
                ls.append("afmt %d %s" % (n, hx(a)))
            ls.append("aunix %s" % hx(a[:r.choice([len(a), 2, 1, 0])]))
        ls.append("end")
        return ls

    # ---- P27 (codec part) ------------------------------------------------------
    FALLIBLE = {"bnew", "bnewd", "bnewg", "bcopy", "bsetcap", "benscap", "bapp", "bappb", "bwr", "mnew", "mcopy", "mfrom", "minit",
                "mfin", "mwrite", "mwargv", "ew", "ewf", "ewargv", "dr", "drf", "mread", "madump", "mdump", "enew", "dnew", "pnew", "pfeed", "pdec"}

    def faulted(self, ls, n=1):
        """variants of the script with a failure armed before one call"""
        idx = [j for j, l in enumerate(ls) if l.split()[0] in self.FALLIBLE]
        out = []
        for j in idx:
            op = ls[j].split()[0]
            for k in ((1, 2, 3, 4) if op in ("mwrite", "mwargv", "mcopy", "bcopy", "madump", "drf", "mread", "pfeed", "pdec", "minit") else (1, 2)):
                for more in ((0, -1) if k == 1 else (0,)):
                    o = list(ls)
                    if op == "pfeed":
                        w = ls[j].split()
                        o[j:j + 1] = ["fault %d 0 %d" % (k, more), ls[j]]
                    else:
                        o[j:j + 1] = ["fault %d 0 %d" % (k, more), ls[j]]
                    out.append(o)
        return out
