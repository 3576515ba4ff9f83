"""Scripts for the driver of contexts; see harness/drv_ctx.c."""
import random
from . import build, gen_codec

ALL = (1 << 64) - 1
def mask(*calls):
    n = build.names()
    return sum(1 << n.index(c) for c in calls)

SIZES = [0, 0, 1, 3, 10, 30, 100, 300, 1000, 4070, 4084, 4085, 4096, 5000, 9000, 20000, 59000]
EAGAIN, EINTR, ECONNREFUSED, ECONNRESET, EPIPE, ENETUNREACH, EADDRINUSE, EADDRNOTAVAIL, EMFILE, ENOBUFS, ETIMEDOUT = \
    11, 4, 111, 104, 32, 101, 98, 99, 24, 105, 110

class Gen:
    def __init__(self, seed):
        self.r = random.Random("ctx-%s" % seed)
        self.w = gen_codec.Gen("ctx-%s-w" % seed)

    # ---- contents ------------------------------------------------------------
    def size(self):
        r = self.r
        return r.choice(self.sizes) + r.choice([0, 0, 0, 1, 2, 7])

    def payload(self, raw=False, fds=False):
        r = self.r
        if raw:
            return "r%d:%d" % (r.randrange(100), r.choice([self.size(), self.size(), 100000 if r.random() < .1 and self.sizes is SIZES else 2]))
        if fds and r.random() < self.fdp:
            return "f%d:%d:%s" % (r.randrange(1, 100), self.size(), "".join(r.choice("01234567") for _ in range(r.choice([1, 1, 2, 3, 4]))))
        if r.random() < .12:
            return "e%d" % r.randrange(1, 100)
        return "m%d:%d" % (r.randrange(1, 100), self.size())

    def frame(self):
        """bytes of a message and its number of descriptors"""
        r = self.r
        k = r.random()
        if k < .35 and self.fds:
            n = r.choice([1, 1, 2, 3, 4, 5]) if r.random() < .25 else r.choice([1, 2])
            p = self.w.enc(gen_codec.U32, self.w.value(gen_codec.U32)) if r.random() < .5 else b""
            for _ in range(n):
                p += bytes([gen_codec.FD, 0, 0, 0, 0])
                if r.random() < .3:
                    p += self.w.enc(gen_codec.STR, self.w.text(5))
            if r.random() < .1:
                p = p[:-1]
            return gen_codec.header(r.randrange(1, 99), 12 + len(p)) + p, n
        if k < .8:
            return self.w.wire(), 0
        if k < .9:
            p = bytes([r.randrange(256)]) * r.choice([1, 100, 600, 1500])
            return gen_codec.header(r.randrange(1, 99), 12 + len(p)) + p, 0
        return r.choice([b"P", b"POMPO", b"PPOM", bytes(r.randrange(256) for _ in range(9)), gen_codec.header(1, r.choice([0, 3, 11]))]), 0

    def hwrite(self, p, raw=False):
        """what a raw peer writes: whole messages, or a message in pieces"""
        r = self.r
        if raw or self.raw:
            return ["rw %d %s" % (p, bytes(r.randrange(256) for _ in range(r.choice([1, 3, 20]))).hex() if r.random() < .7
                                  else gen_codec.hx(bytes([r.randrange(256)]) * r.choice([100, 1000, 2000])))]
        b, n = self.frame()
        k = r.random()
        fs = "".join(r.choice("01234567") for _ in range(n if r.random() < .85 else r.randrange(6))) if self.fds else ""
        if k < .3 and not fs:
            for _ in range(r.choice([1, 2, 4])):
                b += self.frame_plain()
        if k < .6 or len(b) < 2:
            return ["rw %d %s %s" % (p, gen_codec.hx(b), fs)]
        cuts = sorted(set([0, len(b)] + [r.randrange(1, len(b)) for _ in range(r.choice([1, 1, 2, 3]))]))
        out = []
        for i, (x, y) in enumerate(zip(cuts, cuts[1:])):
            out.append("rw %d %s %s" % (p, gen_codec.hx(b[x:y]), fs if i == 0 or (self.fds and r.random() < .12) else ""))
            if r.random() < .6:
                out.append(self.run())
        return out

    def frame_plain(self):
        return self.w.wire(self.r.randrange(3))

    # ---- system calls --------------------------------------------------------
    def io(self):
        r = self.r
        k = r.choices("rwkbalp", self.iow)[0]
        err = {"r": [-EAGAIN, -EINTR, -EINTR], "w": [-EAGAIN, -EINTR, -EAGAIN], "k": [-ECONNREFUSED, -ENETUNREACH, -EINTR, -ETIMEDOUT],
               "b": [-EADDRNOTAVAIL], "a": [-EAGAIN, -EINTR, -EMFILE], "l": [-EADDRINUSE], "p": [-107]}[k]
        if self.hard:
            err = err + {"r": [-ECONNRESET, "E", -ETIMEDOUT], "w": [-EPIPE, -ECONNRESET, -ENOBUFS], "k": [-EADDRNOTAVAIL, -13],
                         "b": [-EADDRINUSE, -13, -EADDRNOTAVAIL], "a": [-ECONNREFUSED], "l": [-ENOBUFS], "p": []}[k]
        caps = {"r": [1, 2, 7, 11, 12, 13, 100, 4095], "w": [1, 2, 11, 12, 50, 1000, 4096]}.get(k, [0])
        out = []
        for _ in range(r.choice([1, 2, 4, 8, 16])):
            x = r.random()
            out.append(str(r.choice(caps) if x < self.capp else r.choice(err) if x < self.capp + .2 else 0))
        return "io %s %s" % (k, ",".join(out))

    # ---- operations ----------------------------------------------------------
    def run(self):
        r = self.r
        k = r.random()
        if k < .35:
            return "step %d" % r.choice(self.loops)
        if k < .55:
            return "cstep %d %d" % (r.choice(self.ctxs), r.randrange(2))
        if k < .75:
            return "round %d" % r.choice([1, 1, 2, 5])
        return "settle"

    def op(self, incb=None):
        """incb: (kind, ctx) when to be done in a callback"""
        r = self.r
        fam = r.choices(list(self.fam), list(self.fam.values()))[0]
        c = r.choice(self.ctxs) if incb is None or r.random() < .25 else incb[1]
        who = "." if incb and r.random() < .7 else str(r.randrange(4))
        dg = c in self.dgs
        fds = self.fds and (c in self.srv or c in self.cli)
        if fam == "send":
            pl = self.payload(self.raw, fds)
            how = r.randrange(2)
            if incb and incb[0] == "raw" and r.random() < .4:
                pl = "R"
            if incb and incb[0] == "msg" and r.random() < .3 and not (self.fds and not self.local):
                pl = "M"
            if self.raw != (pl[0] in "rR") or r.random() < .02:
                pl = self.payload(self.raw)
            if r.random() < self.other:    # the other kind, refused
                if not self.raw:
                    return ["send %d * 1 r1:5" % c]
            if self.fds and not self.local and r.random() < .2 and not dg:
                pl = "f5:10:12"
            if dg:
                if incb and r.random() < .6:
                    return ["send %d . %d %s" % (c, how, pl)]
                if r.random() < .05:
                    return ["send %d * %d %s" % (c, how, pl)]
                return ["send %d > 1 %s %d" % (c, pl, r.choice(self.daddr))]
            if r.random() < .02:
                return ["send %d > 1 %s 5" % (c, pl)]
            if r.random() < (self.bcp if c in self.srv else .5):
                who = "*"
            return ["send %d %s %d %s" % (c, who, how, pl)] * (1 if r.random() < .8 else r.choice([2, 3, 6]))
        if fam == "disc":
            return ["disc %d %s" % (c, who)]
        if fam == "sus":
            return ["%s %d %s" % (r.choice(["sus", "sus", "res", "res", "res"]), c, who)]
        if fam == "rbl":
            return ["rbl %d %s %d" % (c, who, r.choice(self.rbls))] if r.random() < .7 else \
                   ["crbl %d %d" % (c, r.choice(self.rbls))]
        if fam == "stop":
            return ["stop %d" % c]
        if fam == "start":
            return [self.start(c)] if r.random() < .85 else ["start %d %s %d" % (c, r.choice("scd" if not dg else "d"), r.choice(self.addrs + [4]))]
        if fam == "restart":
            if incb:
                return ["stop %d" % c] + ([self.start(c)] if r.random() < .5 else [])
            return ["stop %d" % c, r.choice(["settle", "round 1"])] + ([self.start(c)] if r.random() < .8 else [])
        if fam == "destroy":
            if incb:
                return ["stop %d" % c]
            return ["destroy %d" % c] if r.random() < .4 else ["stop %d" % c, "destroy %d" % c, self.new(c), self.start(c)]
        if fam == "set":
            return ["set %d %s" % (c, r.choice("ks" if not self.raw else "rks"))]
        if fam == "list":
            return ["list %d" % c]
        if fam == "keep":
            return ["keep"] if incb else ["chk"]
        if fam == "adv":
            if incb:
                return ["list %d" % c]
            return ["adv %d" % r.choice([1, 500, 1999, 2000, 2000, 2001, 4000])]
        if fam == "ka":
            return [self.ka(c)]
        if fam == "laddr":
            return ["laddr %d" % c]
        if fam == "path":
            return ["path"]
        if fam == "io":
            return [self.io()]
        if fam == "peer":
            return self.peer()
        if fam == "fill":
            # a peer that does not read
            return ["send %d * 1 %s" % (c, "r1:59000" if self.raw else "m7:59000")] * r.choice([2, 5, 8]) if c in self.srv + self.cli else []
        return []

    def peer(self):
        r = self.r
        if not self.peers:
            return ["list 0"]
        p = r.choice(self.peers)
        k = r.random()
        if self.dgs:
            if k < .5:
                b = r.choice([self.w.wire(), self.w.wire() + self.w.wire(0), self.w.wire()[:r.choice([0, 1, 8, 12, 14])], b"\0\1\2", b"POMP", b"",
                              gen_codec.header(3, 12), gen_codec.header(3, 2000), gen_codec.header(3, 5), bytes(100)])
                return ["rt %d %d %s" % (p, r.choice(self.daddr), gen_codec.hx(b))]
            if k < .85:
                return ["rr %d" % p]
            if k < .92:
                return ["rx %d" % p]
            return ["ru %d %d" % (p, 7)]
        if p >= 20:
            if k < .2:
                return ["rl %d %d %d" % (p, r.choice(self.addrs), r.choice([0, 1, 16]))]
            if k < .3:
                return ["rx %d" % p]
            if k < .9:
                return ["ra %d %d" % (p, r.choice(self.accs))]
            return ["rr %d" % r.choice(self.accs)] if not self.fds else ["list 0"]
        if p not in self.accs and k < .25 or k < .02:
            return ["rc %d %d" % (p, r.choice(self.addrs))]
        if k < .6:
            return self.hwrite(p)
        if k < .84 and self.fds:        # (descriptors have other numbers there)
            return ["list 0"]
        if k < .84:
            return ["rr %d%s" % (p, r.choice(["", "", " 1 3", " 100 5", " 1000 20"]))]
        if k < .89:
            return ["rs %d" % p]
        return ["rx %d%s" % (p, r.choice(["", "", " 1"]))]

    def new(self, c):
        r = self.r
        l = self.lof[c]
        return "new %d %d %d %d %d" % (c, l, self.raw, r.random() < .6, r.random() < self.scbp)

    def start(self, c):
        r = self.r
        if c in self.dgs:
            return "start %d d %d" % (c, 4 + self.dgs.index(c))
        a = self.addrs[0] if r.random() < .92 or len(self.addrs) < 2 else self.addrs[1]
        if c in self.srv:
            return "start %d s %d %s" % (c, a, r.choice(["", "384", "448", "438", "511"]) if a == 3 else "")
        return "start %d c %d" % (c, a)

    # ---- scripts -------------------------------------------------------------
    def script(self, k, n, fam, srv=1, cli=2, dg=0, raw=0, fds=0, peers=2, acc=0, cbp=.25, capp=.4, hard=0, ioinit=1, scbp=.7,
               bcp=.5, big=.2, addrs=None, fdp=.5, pre=(), kinds=("conn", "disc", "msg", "sent"), iow=(6, 6, 1, 0, .6, 0, 0), prop=.5):
        r = self.r
        self.fam, self.raw, self.fds, self.capp, self.hard, self.scbp, self.bcp, self.fdp, self.iow = \
            fam, raw, fds, capp, hard, scbp, bcp, fdp, iow
        self.other = .03 if "set" not in fam or fam["set"] < .6 else .2
        self.sizes = SIZES if r.random() < big else SIZES[:9] if r.random() < .6 else SIZES[:6]
        if "fill" in fam and r.random() < .5:
            fam["fill"] = 0
        # (small buffers with large messages make long traces)
        small = len(self.sizes) == 6 and not fam.get("fill") and not raw
        self.rbls = [0, 1, 2, 7, 12, 13, 100, 4096, 10000] if small else [0, 1000, 2000, 4096, 10000]
        ids = list(range(srv + cli + dg))
        self.srv, self.cli, self.dgs, self.ctxs = ids[:srv], ids[srv:srv + cli], ids[srv + cli:], ids
        a = addrs or [r.choice([0, 0, 3, 4, 4])]
        self.addrs = a
        self.local = a[0] <= 3
        self.daddr = [4 + i for i in range(dg)] + [7]
        self.loops = [0, 1]
        self.lof = {c: r.choices([0, 1, -1], [6, 2, 2])[0] for c in ids}
        self.peers = list(range(peers)) + ([20] if acc else [])
        self.accs = list(range(peers, peers + 3)) if acc else []
        self.peers += self.accs
        s = ["impl %d %d" % (k & 1, (k >> 1) & 1), "loop 0", "loop 1"]
        s += [self.new(c) for c in ids]
        s += list(pre)
        order = ids[:]
        if r.random() < .3:
            r.shuffle(order)
        s += [self.start(c) for c in order if r.random() < .95]
        if r.random() < .7:
            s.append("settle")
        if dg and peers:
            s.append("ru 0 7")
        kinds = [x for x in kinds if x != "msg"] + ["raw"] if raw else list(kinds)
        for _ in range(n):
            x = r.random()
            if x < cbp and (not dg or kinds):
                kd, c = r.choice(kinds), r.choice(ids)
                cmds = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    cmds += self.op((kd, c))
                s.append("on %s%d %s" % (kd, c, ";".join(cmds)))
            else:
                s += self.op()
            if r.random() < prop:
                s.append(self.run())
        if r.random() < .5:
            s += ["settle", "chk"]
        s.append("end")
        return s

    FAM = {"send": 8, "disc": .5, "sus": .3, "rbl": .2, "stop": .2, "start": .4, "restart": .2, "destroy": .05, "set": .05, "list": .6, "keep": .3,
           "adv": .8, "path": .05, "io": 1, "peer": 2}
    def fams(self, **kw):
        d = dict(self.FAM)
        d.update(kw)
        return d

    def p16(self, k):
        r = self.r
        return self.script(k, r.choice([15, 30, 45]), self.fams(disc=2, stop=.6, restart=.6, start=.6, list=2, peer=5, adv=1.5, send=4, sus=1.5),
                           cli=r.choice([1, 2, 3]), peers=r.choice([0, 2, 4]), acc=r.random() < .3, hard=1, raw=r.random() < .2,
                           kinds=("conn", "disc", "msg", "sent", "sock"), iow=(3, 3, 1, .3, 1, .3, .6), big=.1, cbp=.3)

    def p16m(self, k):
        """more connections than the maximum"""
        r = self.r
        self.script(k, 0, self.fams(), srv=1, cli=0, peers=40, addrs=[r.choice([0, 4])])
        a = self.addrs[0]
        s = ["impl %d %d" % (k & 1, (k >> 1) & 1), "loop 0", "new 0 0 0 1 1", "start 0 s %d" % a]
        n = r.choice([31, 32, 33, 35, 38])
        for p in range(n):
            s.append("rc %d %d" % (p, a))
            if r.random() < .3:
                s.append("step 0")
        s += ["settle", "list 0"]
        for _ in range(r.choice([3, 8])):
            x = r.random()
            p = r.randrange(n)
            if x < .4: s.append("rx %d" % p)
            elif x < .5: s.append("disc 0 %d" % r.randrange(32))
            elif x < .8: s.append("rc %d %d" % (r.randrange(44), a))
            else: s.append("send 0 * 0 m3:5")
            if r.random() < .5:
                s += ["settle", "list 0"]
        s += ["settle", "list 0", "end"]
        return s

    def p17(self, k):
        r = self.r
        return self.script(k, r.choice([15, 30, 45]), self.fams(send=9, fill=.4, io=2.5, peer=2, rbl=.5, sus=.3, disc=.2, stop=.05, restart=.1),
                           cli=r.choice([1, 1, 2]), peers=r.choice([0, 1, 2]), acc=r.random() < .25, capp=.6, big=.5, cbp=.2,
                           raw=0, iow=(6, 6, .2, 0, .2, 0, 0), hard=r.random() < .2)

    def p18(self, k):
        r = self.r
        return self.script(k, r.choice([15, 30, 45]), self.fams(send=9, fill=1, io=2, peer=2, disc=1, stop=.4, restart=.3), scbp=1, bcp=.4,
                           cli=r.choice([1, 2]), peers=r.choice([0, 2]), acc=r.random() < .3, big=.5, cbp=.3, raw=r.random() < .15,
                           kinds=("sent", "sent", "disc", "msg", "conn"), hard=r.random() < .4)

    def p19(self, k):
        r = self.r
        dg = r.random() < .2
        if dg and r.random() < .5:
            return self.script(k, r.choice([15, 30]), self.fams(adv=8, io=5, peer=0, send=.5, disc=0, start=2, stop=2, restart=2, sus=0, rbl=0),
                               srv=0, cli=0, dg=2, peers=0, big=0, kinds=("sock",), cbp=.05, hard=r.random() < .3, iow=(0, 0, 0, 6, 0, 0, 1), capp=0)
        return self.script(k, r.choice([15, 30, 40]), self.fams(adv=8, io=3, peer=5 if not dg else 1, send=1.5, disc=1, start=.5, stop=.3, restart=.6,
                                                               sus=0, rbl=0),
                           srv=r.choice([0, 1, 1, 2]), cli=r.choice([1, 2, 3]) if not dg else 0, dg=2 if dg else 0, peers=r.choice([0, 1]), acc=not dg, big=0,
                           kinds=("conn", "disc", "sock"), cbp=.12, hard=1, iow=(1, 1, 4, 3 if r.random() < .5 else 0, 1.5, 1, 2), capp=.1)

    def p20(self, k):
        r = self.r
        dg = r.choice([0, 0, 1, 2])
        return self.script(k, r.choice([15, 30, 40]), self.fams(stop=3, start=2.5, restart=4, destroy=1.2, set=.6, path=1, adv=1.5, send=5, fill=.3, peer=2,
                                                               keep=.5),
                           cli=r.choice([1, 2]), dg=dg if dg else 0, peers=r.choice([0, 2]), big=.2,
                           addrs=[r.choice([0, 3, 3, 4])], kinds=("conn", "disc", "msg", "sent", "sock"), cbp=.35, hard=r.random() < .3,
                           raw=r.random() < .15, iow=(3, 3, 1, .5, 1, .3, .3))

    def p21(self, k):
        r = self.r
        return self.script(k, r.choice([20, 40]), self.fams(send=8, fill=1.5, io=1.5, peer=5, disc=.5, sus=1), cli=r.choice([2, 3, 4]), bcp=.8,
                           peers=r.choice([1, 2, 3]), big=.4, raw=r.random() < .15, hard=r.random() < .3)

    def p22(self, k):
        r = self.r
        local = r.random() < .9
        return self.script(k, r.choice([15, 30, 45]), self.fams(send=8, fill=.3, io=2.5, peer=3, keep=1.5, disc=.4, stop=.1, restart=.2, sus=.5),
                           addrs=[r.choice([0, 3]) if local else 4], fds=1, cli=r.choice([1, 2]), peers=0 if r.random() < .4 else 2,
                           capp=.6, big=.3, kinds=("msg", "msg", "conn", "disc", "sent"), cbp=.3, iow=(6, 6, .1, 0, .1, 0, 0),
                           fdp=r.choice([.3, .8]), hard=r.random() < .2)

    def p22t(self, k):
        """small messages with descriptors, many splits of writes and reads"""
        r = self.r
        return self.script(k, r.choice([20, 40]), self.fams(send=10, io=7, peer=0, keep=1, disc=.3, stop=0, restart=.1, list=0, adv=0),
                           addrs=[r.choice([0, 3])], fds=1, cli=1, peers=0, capp=.7, big=0, kinds=("msg",), cbp=.05, iow=(6, 6, 0, 0, 0, 0, 0),
                           fdp=r.choice([.4, .8]), prop=.4)

    def p22r(self, k):
        """a peer that writes messages in pieces with descriptors anywhere, and ends anywhere"""
        r = self.r
        self.script(k, 0, self.fams(), srv=1, cli=0, peers=2, fds=1, addrs=[r.choice([0, 3])])
        s = ["impl %d %d" % (k & 1, (k >> 1) & 1), "loop 0", "new 0 0 0 0 0", "start 0 s %d" % self.addrs[0]]
        fd = lambda: "".join(r.choice("01234567") for _ in range(r.choice([0, 0, 1, 1, 2, 4])))
        for p in range(2):
            s += ["rc %d %d" % (p, self.addrs[0]), "settle"]
            b = b""
            for _ in range(r.choice([1, 2, 4])):
                b += self.frame()[0]
            cuts = sorted(set([0, len(b)] + [r.randrange(len(b)) for _ in range(r.choice([1, 3, 6]))])) if len(b) > 1 else [0, len(b)]
            cuts = cuts[:r.randrange(2, len(cuts) + 1)]
            for x, y in zip(cuts, cuts[1:]):
                s.append("rw %d %s %s" % (p, gen_codec.hx(b[x:y]), fd()))
                if r.random() < .7:
                    s.append("step 0")
            if r.random() < .3:
                s.append("keep")
            s.append(r.choice(["rx %d" % p, "rs %d" % p, "disc 0 0", "step 0", "settle"]))
            if r.random() < .5:
                s.append("settle")
        return s + ["end"]

    def p23(self, k):
        r = self.r
        return self.script(k, r.choice([20, 40]), self.fams(send=9, io=1.2, peer=4, stop=.2, restart=.4, start=.4, adv=.8, disc=.3, sus=.5, rbl=.6),
                           srv=0, cli=0, dg=r.choice([2, 3]), peers=r.choice([1, 1, 0]), kinds=("msg", "sent"), cbp=.3,
                           raw=r.random() < .25, hard=1, iow=(3, 5, 0, .5, 0, 0, 0), capp=0, big=.2)

    def p24(self, k):
        r = self.r
        return self.script(k, r.choice([15, 30, 45]), self.fams(send=8, fill=.4, io=2.5, peer=3, keep=2, rbl=.6, sus=.4, set=.6, stop=.1),
                           raw=r.random() < .9, cli=r.choice([1, 2]), peers=r.choice([0, 2]), acc=r.random() < .25, capp=.6, big=.5, cbp=.3, bcp=.4,
                           kinds=("msg", "sent", "conn"))

    def p25(self, k):
        r = self.r
        if r.random() < .3:
            # with writes that are delayed
            return self.script(k, r.choice([20, 40]), self.fams(send=8, sus=7, rbl=1, io=6, peer=0, disc=.1, fill=.6, list=0), cli=1, peers=0, big=.3,
                               cbp=.2, capp=.2, iow=(1, 8, 0, 0, 0, 0, 0))
        return self.script(k, r.choice([15, 30, 45]), self.fams(send=8, sus=6, rbl=4, io=1.5, peer=3, disc=.2, fill=.3), cli=r.choice([1, 2]),
                           peers=r.choice([0, 2]), acc=r.random() < .2, big=.4, cbp=.3, raw=r.random() < .3)

    def p28(self, k):
        """how sockets are set up"""
        r = self.r
        dg = r.choice([0, 0, 0, 1])
        return self.script(k, r.choice([15, 30]), self.fams(ka=5, laddr=4, stop=1.5, start=1.5, restart=4, path=3, adv=2, send=2, disc=1.5, peer=3, io=.6,
                                                            set=.4, destroy=.3),
                           cli=r.choice([1, 2, 3]), dg=dg, peers=r.choice([0, 1, 3]), big=.05, acc=r.random() < .2,
                           addrs=[r.choice([0, 3, 3, 4, 4, 4])], kinds=("conn", "disc", "msg"), cbp=.15, hard=r.random() < .2,
                           iow=(1, 1, 2, 1, .6, .2, .3), pre=[self.ka(c) for c in range(4) if r.random() < .7])

    def ka(self, c):
        r = self.r
        return "ka %d %d %d %d %d" % (c, r.random() < .7, r.choice([1, 2, 4, 5, 6, 60, r.randrange(1, 30000)]), r.choice([1, 2, 3, r.randrange(1, 30000)]),
                                      r.choice([1, 2, 3, r.randrange(1, 127)]))

    # one failure of an allocation or of a system call
    def faulted(self, script):
        r = self.r
        out = []
        idx = [i for i, x in enumerate(script) if x.split()[0] in ("new", "start", "send", "disc", "sus", "res", "step", "round", "cstep", "stop")]
        r.shuffle(idx)
        for i in sorted(idx[:6]):
            x = script[i].split()
            pre = []
            if x[0] == "round":
                x = ["step", "0"]
            m = ALL & ~mask(*[c for c in build.names() if c in (
                "read", "recv", "recvfrom", "recvmsg", "readv", "write", "send", "sendto", "sendmsg", "writev", "accept", "accept4", "connect", "bind",
                "getpeername", "getsockname", "timerfd_settime", "timer_settime", "epoll_wait", "poll", "close", "shutdown", "unlink")])
            out.append(script[:i] + pre + ["fault %d 0 %d %d" % (r.choice([1, 1, 2, 3, 4, 5, 6, 8, 12]), r.choice([0, 0, 0, 1, -1]), m), " ".join(x)] + script[i + 1:])
        return out
