"""Scripts for the C++ binding (harness/drv_cpp.cpp)."""
import random, struct
from .gen_py import Gen as PGen

W = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 11: 4, 12: 8}
LONG = [[1, 4, 5, 8, 9], [9, 10, 9, 10, 9], [12, 11, 7, 6, 10], [2, 2, 2, 3, 3], [10, 7, 9, 1, 11]]


class Gen:
    def __init__(self, seed):
        self.r = random.Random("cpp-%s" % seed)
        self.p = PGen("cpp-%s" % seed)

    def val(self, t, big=True):
        r = self.r
        if t == 9:
            n = r.choice([0, 0, 1, 2, 5, 126, 127, 128, 200] + ([65533, 65534, 65535] if big and r.random() < .03 else []))
            return "%02x*%d" % (r.randrange(1, 256), n) if n > 300 else bytes(r.randrange(1, 256) for _ in range(n)).hex()
        if t == 10:
            return bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 3, 64, 127, 128, 300]))).hex()
        if t in (11, 12):
            v = r.choice([0.0, -0.0, 1.0, -1.5, 3.25, 1e10, float("inf"), -float("inf"), 0.5 ** 120])
            return struct.pack("<f" if t == 11 else "<d", v).hex()
        v = self.p.integer(8 * W[t], t % 2 == 1)
        return (v & (1 << 8 * W[t]) - 1).to_bytes(W[t], "little").hex()

    def types(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return list(r.choice(LONG))
        if k == 1:
            return [r.randrange(1, 13) for _ in range(r.randrange(3, 9))]
        return [r.randrange(1, 13) for _ in range(r.choice([0, 1, 1, 2, 2, 2]))]

    def enc(self, t, h):
        r = bytes.fromhex(h)
        def vi(n):
            o = b""
            while True:
                o += bytes([n & 127 | (128 if n >> 7 else 0)])
                n >>= 7
                if not n:
                    return o
        if t == 9:
            return b"\x09" + vi(len(r) + 1) + r + b"\0"
        if t == 10:
            return b"\x0a" + vi(len(r)) + r
        if t in (5, 6, 7, 8):
            x = int.from_bytes(r, "little", signed=t % 2 == 1)
            n = 8 * len(r)
            return bytes([t]) + vi((x << 1 ^ x >> n - 1) & (1 << n) - 1 if t % 2 else x)
        return bytes([t]) + r

    def cmsg(self, k):
        """messages, written and read"""
        r = self.r
        ls = []
        for _ in range(r.randrange(1, 6)):
            ts = self.types()
            if r.random() < .12:
                ls.append("flt %d" % r.choice([1, 1, 2, 3, 4, 5]))
            ls.append("w %s %d %s" % (r.choice("ttepv"), self.p.mid(), " ".join("%d:%s" % (t, self.val(t) or "-") for t in ts)))
            for _ in range(r.choice([1, 1, 2])):
                us = list(ts)
                if r.random() < .3 and us:
                    j = r.randrange(4)
                    if j == 0:
                        us[r.randrange(len(us))] = r.randrange(1, 13)
                    elif j == 1:
                        us.pop()
                    elif j == 2:
                        us.append(r.randrange(1, 13))
                    else:
                        us = self.types()
                ls.append("r %s - %s" % (r.choice("ttddfv"), " ".join(map(str, us))))
            if r.random() < .4:
                ts = self.types()
                p = bytearray(b"".join(self.enc(t, self.val(t, False)) for t in ts))
                for _ in range(r.choice([0, 1, 1, 2])):
                    j = r.randrange(4)
                    if j == 0 and p:
                        del p[r.randrange(len(p)):]
                    elif j == 1 and p:
                        p[r.randrange(len(p))] = r.choice([0, 1, 127, 128, 255])
                    elif j == 2:
                        o = r.randrange(len(p) + 1)
                        p[o:o] = bytes([r.choice([0, 1, 9, 10, 128, 255])])
                ls.append("r %s %s %s" % (r.choice("tddfv"), (b"POMP" + struct.pack("<II", r.randrange(1 << 32), 12 + len(p)) + bytes(p)).hex(), " ".join(map(str, ts))))
            if r.random() < .1:
                ls.append("fd %d" % r.randrange(4))
        return ls

    # ---- contexts
    def payload(self):
        r = self.r
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 17, 100, 127, 128, 255, 300, 600]))).hex() or "-"

    def how(self, c):
        return "r" if c in self.raw else self.r.choice("tpmv")

    def one(self, c, incb):
        r = self.r
        x = r.random()
        if x < .3:
            return "csend %d %s %d %s" % (c, self.how(c), self.p.mid(), self.payload())
        if x < .55:
            return "ksend %s %s %d %s" % ("." if incb and r.random() < .7 else r.randrange(8), "r" if self.raw else r.choice("tpmv"), self.p.mid(), self.payload())
        if x < .65:
            return "kdisc %s" % ("." if incb and r.random() < .6 else r.randrange(8))
        if x < .72:
            return "cstop %d" % c
        if x < .88:
            return "cstart %d %s %d" % (c, "s" if c == 0 else "c", self.port)
        if incb:
            return "cstop %d" % c if r.random() < .4 else "ksend . %s 5 %s" % ("r" if self.raw else "t", self.payload())
        return r.choice(["adv 2000", "adv 2000", "adv 500", "cdel %d" % c, "cnew %d %d %d" % (c, r.choice([0, 0, 1, 3]), c in self.raw)])

    def cctx(self, k):
        """contexts and connections"""
        r = self.r
        nc = r.choice([1, 1, 2, 3])
        self.raw = set(range(4)) if r.random() < .25 else set()
        ls = ["cnew %d %d %d" % (c, r.choice([0, 0, 0, 1, 3]), c in self.raw) for c in range(nc + 1)]
        self.port = r.randrange(2)
        if r.random() < .9:
            ls.append("cstart 0 s %d" % self.port)
        for c in range(1, nc + 1):
            if r.random() < .9:
                ls.append("cstart %d c %d" % (c, self.port))
        for _ in range(r.choice([10, 20, 40])):
            x = r.random()
            if x < .25:
                kd = r.choice(["conn", "disc", "raw" if self.raw else "msg"])
                c = r.randrange(nc + 1)
                ls.append("on %s%d %s" % (kd, c, ";".join(self.one(r.choice([c, c, r.randrange(nc + 1)]), True) for _ in range(r.choice([1, 1, 2, 3])))))
            elif x < .45:
                ls.append("step")
            elif x < .6:
                ls.append("settle")
            else:
                ls.append(self.one(r.randrange(nc + 1), False))
        return ls + ["settle"]

    def done(self, c, n, incb):
        r = self.r
        x = r.random()
        if x < .7:
            return "csendto %d m %d %s %d" % (c, self.p.mid(), self.payload(), r.choice([r.randrange(n)] * 6 + [4]))
        if x < .8:
            return "cstart %d b %d" % (c, c)
        if x < .86:
            return "cstop %d" % c
        if incb:
            return "csendto %d m %d %s %d" % (c, self.p.mid(), self.payload(), r.randrange(n))
        return r.choice(["wake %d" % c, "wake 9", "cdel %d" % c, "cnew %d %d 0" % (c, r.choice([0, 1, 3])), "step", "settle"])

    def cdgram(self, k):
        """datagrams"""
        r = self.r
        n = r.choice([1, 2, 2, 3])
        ls = ["cnew %d %d 0" % (c, r.choice([0, 0, 1, 3])) for c in range(n)]
        ls += ["cstart %d b %d" % (c, c) for c in range(n) if r.random() < .9]
        for _ in range(r.choice([10, 20, 40])):
            x = r.random()
            c = r.randrange(n)
            if x < .15:
                ls.append("on msg%d %s" % (c, ";".join(self.done(c, n, True) for _ in range(r.choice([1, 1, 2])))))
            elif x < .3:
                ls.append("step")
            elif x < .4:
                ls.append("settle")
            else:
                ls.append(self.done(c, n, False))
        if r.random() < .3:
            ls.insert(r.randrange(len(ls)), "um %d" % r.choice([0, 0o600, 0o660, 0o666, 0o640, 0o777]))
        return ls + ["settle"]

    # ---- loop
    def lone(self, incb):
        r = self.r
        i = r.randrange(3)
        x = r.random()
        if x < .4:
            return "ev %s %d" % (r.choice("nnssssccaaar" + ("" if incb else "d")), i)
        if x < .7:
            o = r.choice("nnssspc" + ("" if incb else "d"))
            d, p = r.choice([1, 5, 10, 100]), r.choice([0, 0, 1, 10, 30])
            return "tm %s %d %d %d" % (o, i, d, (p or 7) if o == "p" else p)
        return "fdl %s %d" % (r.choice("aaawwwwuUUr"), i)

    def cloop(self, k):
        """events, timers and descriptors"""
        r = self.r
        ls = []
        for _ in range(r.choice([15, 30, 60])):
            x = r.random()
            if x < .12:
                ls.append("on %s%d %s" % (r.choice(["ev", "tm", "fd"]), r.randrange(3), ";".join(self.lone(True) for _ in range(r.choice([1, 1, 2])))))
            elif x < .24:
                ls.append("step")
            elif x < .34:
                ls.append("settle")
            elif x < .42:
                ls.append("adv %d" % r.choice([1, 4, 5, 10, 50, 100]))
            elif x < .45:
                ls.append("wake 9")
            else:
                ls.append(self.lone(False))
        return ls + ["settle"]
