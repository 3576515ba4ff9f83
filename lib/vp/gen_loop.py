"""Scripts for the loop driver."""
import random
from . import build

ALL = (1 << 64) - 1
def mask(*calls):
    n = build.names()
    return sum(1 << n.index(c) for c in calls)

class Gen:
    def __init__(self, seed):
        self.r = random.Random("loop-%s" % seed)
        self.ud = 0

    def newud(self):
        self.ud = self.ud % 30000 + 1
        return self.ud

    def evs(self):
        r = self.r
        return r.choice([1, 1, 1, 4, 5, 5, 2, 3, 7, 8, 16, 24, 31, 6])

    # one operation; w: weights by family
    def op(self, w, nest=0):
        r = self.r
        l = 0 if r.random() < .8 else 1
        fam = r.choices(list(w), list(w.values()))[0]
        if fam == "fd":
            f = r.randrange(self.nf)
            k = r.random()
            if k < .28: return "ladd %d %d %d %d" % (l, f, self.evs(), self.newud())
            if k < .42: return "lrem %d %d" % (l, f)
            if k < .54: return "lupd %d %d %d" % (l, f, r.choice([0, self.evs(), self.evs()]))
            if k < .62: return "lup2 %d %d %d %d" % (l, f, r.choice([0, 1, 2, 4, 5]), r.choice([0, 1, 4, 5, 16, 31]))
            if k < .66: return "lhas %d %d" % (l, f)
            if k < .68: return r.choice(["ladd %d -1 1 5" % l, "ladd %d %d 0 5" % (l, f), "ladd %d %d 1 -1" % (l, f),
                                         "lupd %d -1 1" % l, "lrem %d -1" % l, "lup2 %d -1 1 1" % l])
            if k < .72: return "lrem %d %d;fswap %d %d;ladd %d %d %d %d" % (l, f, f, r.choice([0, 0, 1, 3]), l, f, self.evs(), self.newud())
            if k < .75: return "lrem %d %d;ladd %d %d %d %d" % (l, f, l, f, self.evs(), self.newud())
            return self.env(f)
        if fam == "idle":
            k = r.random()
            cb, ud, ck = r.randrange(3), r.randrange(1, 4), r.choice([0, 0, 1, 2])
            if k < .62: return "iadd %d %d %d %d" % (l, cb, ud, ck)
            if k < .76: return "irem %d %d %d" % (l, cb, ud)
            if k < .86: return "iremc %d %d" % (l, r.choice([1, 2, 3]) if r.random() < .95 else 0)
            if k < .93: return "iflush %d" % l
            return "iflushc %d %d" % (l, r.choice([1, 2]))
        if fam == "evt":
            e = r.randrange(4)
            k = r.random()
            if k < .12: return "enew %d" % e
            if k < .20: return "edel %d" % e
            if k < .36: return "eatt %d %d %d" % (e, l, self.newud())
            if k < .47: return "edet %d %d" % (e, l)
            if k < .55: return "eis %d %d" % (e, r.choice([-1, 0, 1]))
            if k < .88: return "esig %d %d" % (e, r.choice([1, 1, 2, 3, 70, 130]))
            return "eclr %d" % e
        if fam == "timer":
            t = r.randrange(4)
            k = r.random()
            if k < .14: return "tnew %d %d %d" % (t, l, self.newud())
            if k < .22: return "tdel %d" % t
            if k < .42: return "tset %d %d" % (t, r.choice([1, 2, 5, 10, 999, 1000, 1001, 100000]))
            if k < .56: return "tper %d %d %d" % (t, r.choice([1, 3, 10, 1000]), r.choice([0, 1, 4, 10, 1500, 2000]))
            if k < .66: return "tclr %d" % t
            return "adv %d" % r.choice([1, 1, 2, 3, 5, 10, 50, 998, 1000, 3000])
        if fam == "wake":
            return "wake %d" % l
        if fam == "ldel":
            return r.choice(["ldel %d" % l, "lnew %d" % l, "lnew 0"])
        return "lhas 0 0"

    def env(self, f):
        r = self.r
        return r.choice(["fput %d 3" % f, "fput %d 1" % f, "fput %d 2" % f, "fget %d" % f, "fclo %d" % f, "fshut %d" % f, "ffill %d" % f,
                         "fdrain %d" % f, "foob %d" % f])

    def src(self):
        r = self.r
        k = r.random()
        if k < .5 * (self.fam.get("fd", 0) > 0): return "f%d" % r.randrange(self.nf)
        if k < .7: return "i%d.%d" % (r.randrange(3), r.randrange(1, 4))
        if k < .85: return "e%d" % r.randrange(4)
        return "t%d" % r.randrange(4)

    def script(self, w, n, steps, li, ti, ei, pre=()):
        r = self.r
        self.fam = w
        s = ["impl %d %d %d" % (li, ti, ei), "lnew 0", "lnew 1"] + list(pre)
        for i in range(n):
            if r.random() < .05:
                s.append("eintr %d" % r.choice([1, 1, 2, 3]))
            k = r.random()
            if k < steps:
                l = 0 if r.random() < .85 else 1
                s.append(r.choice(["step %d 0" % l, "step %d 0" % l, "step %d %d" % (l, r.choice([-1, 5, 100])), "lproc %d" % l, "lfd %d" % l]))
            elif k < steps + .22:
                wn = {k: v for k, v in w.items() if k != "ldel"}
                cmds = [self.op(wn) for _ in range(r.choice([1, 1, 2, 3]))]
                if r.random() < .06:
                    cmds.append("step %d 0" % r.choice([0, 1]))
                s.append("on %s %s" % (self.src(), ";".join(cmds)))
            else:
                s.extend(self.op(w).split(";"))
        s += ["step 0 0", "step 0 0", "step 1 0", "end"]
        return s

    def fds(self, n):
        r = self.r
        self.nf = n
        return ["fnew %d %d" % (f, r.choices([0, 1, 2, 3], [6, 3, 1, 2])[0]) for f in range(n)]

    def far(self, n):
        """descriptors with numbers that a table of descriptors is likely to put at the same place"""
        r = self.r
        def index(x):
            x = (x * 0xefec2401) & 0xffffffffffffffff
            return (x ^ (x >> 4)) % 128
        base = r.randrange(40, 170)
        how = r.random()
        if how < .6:
            c = [x for x in range(40, 1000) if index(x) == index(base)]
        else:
            c = list(range(base, 1000, r.choice([64, 128, 256])))
        r.shuffle(c)
        self.nf = n
        c = (c + [0] * n)[:n] if r.random() < .7 else (c[:n // 2] + [0] * n)[:n]
        return ["fnew %d %d %d" % (f, r.choices([0, 1, 2, 3], [6, 3, 1, 2])[0], c[f]) for f in range(n)]

    def impls(self, k):
        return (k & 1, (k >> 1) & 1, (k >> 2) & 1)

    def p10(self, k):
        r = self.r
        li, ti, ei = self.impls(k)
        big = r.random() < .15
        if not big and r.random() < .3:
            pre = self.far(r.choice([3, 4, 5, 6]))
        else:
            pre = self.fds(r.choice([20, 30, 40]) if big else r.choice([2, 3, 4, 6, 12]))
        if big or r.random() < .3:
            for f in range(self.nf):
                pre.append("ladd 0 %d %d %d" % (f, self.evs(), self.newud()))
                if r.random() < .5:
                    pre.append("fput %d 1" % f)
        return self.script({"fd": 10, "idle": .7, "evt": .7, "timer": .7, "wake": .5, "ldel": .15}, r.choice([20, 40, 60]), .3, li, ti, ei, pre)

    def p11(self, k):
        r = self.r
        pre = self.fds(2)
        return self.script({"idle": 10, "fd": .8, "evt": .8, "wake": .4, "ldel": .25, "timer": .3}, r.choice([20, 40]), .25, *self.impls(k), pre)

    def p13(self, k):
        r = self.r
        pre = self.fds(1) + ["enew 0", "enew 1", "enew 2"]
        return self.script({"evt": 10, "idle": .6, "fd": .3, "ldel": .2, "timer": .3}, r.choice([25, 50]), .25, *self.impls(k), pre)

    def p14(self, k):
        r = self.r
        pre = self.fds(1) + ["tnew %d 0 %d" % (t, self.newud()) for t in range(3)]
        return self.script({"timer": 10, "idle": .5, "fd": .3, "evt": .5, "ldel": .1}, r.choice([25, 50]), .28, *self.impls(k), pre)

    # creations and registrations where one allocation or system call fails
    def faulted(self, script):
        out = []
        idx = [i for i, x in enumerate(script) if x.split()[0] in ("lnew", "ladd", "lupd", "lup2", "enew", "eatt", "tnew", "tset", "tper")
               or (x.startswith("iadd"))]
        r = self.r
        r.shuffle(idx)
        for i in sorted(idx[:6]):
            # reads and writes of the pipes and eventfds that carry signals do not fail
            m = ALL & ~mask("read", "write")
            out.append(script[:i] + ["fault %d 0 %d %d" % (r.choice([1, 1, 1, 2, 3, 4, 5]), r.choice([0, -1]),
                       m)] + script[i:])
        return out
