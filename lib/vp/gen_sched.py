"""Scripts for the scheduled driver: threads (P12) and watchdog (P15)."""
import random

class Gen:
    def __init__(self, seed):
        self.r = random.Random(str(seed))

    def head(self):
        r = self.r
        return ["impl %d %d" % (r.randrange(2), r.randrange(2))]

    def run(self):
        r = self.r
        return "run %d %d %d" % (r.randrange(1, 1 << 40), r.choice([0, 0, 2, 5, 9]), r.choice([0, 0, 2, 5, 20, 100]))

    def op(self, evts, main=False):
        r = self.r
        cb, ud = r.randrange(2), r.randrange(1, 4)
        ops = ["iadd %d %d %d" % (cb, ud, r.choice([0, 0, 1, 2]))] * 5
        ops += ["irem %d %d" % (cb, ud)] * 2
        ops += ["iremc %d" % r.randrange(1, 3), "wake", "wake"]
        for e in evts:
            ops += ["esig %d" % e] * 3 + ["eclr %d" % e]
        if main:
            ops += ["flush %d" % r.choice([0, 1, 2])] * 2
        else:
            ops += ["pause %d" % r.randrange(1, 6)] * 2
        return r.choice(ops)

    def p12(self, k):
        r = self.r
        s = self.head()
        evts = sorted(r.sample(range(4), r.choice([0, 1, 1, 2])))
        s += ["evt %d" % e for e in evts]
        style = r.randrange(5)
        nth = r.randrange(1, 4)
        for t in range(1, nth + 1):
            for _ in range(r.randrange(1, 6 if nth > 2 else 8)):
                if style == 0:      # producers only: every one of these must be seen by blocking waits
                    s.append("th %d %s" % (t, r.choice(["iadd %d %d 0" % (r.randrange(2), r.randrange(1, 4)), "pause 3"] +
                                                      (["esig %d" % r.choice(evts)] if evts else []))))
                elif style == 1:
                    s.append("th %d %s" % (t, r.choice(["wake", "wake", "pause 2", "iadd 0 1 0"])))
                else:
                    s.append("th %d %s" % (t, self.op(evts)))
        for _ in range(r.randrange(0, 5)):
            src = r.choice(["i%d.%d" % (r.randrange(2), r.randrange(1, 4))] * 2 + ["e%d" % e for e in evts])
            cmds = [self.op(evts, True) for _ in range(r.randrange(1, 3))]
            if src[0] == "i":
                cmds = [c for c in cmds if not c.startswith("flush") or r.random() < .3] or ["wake"]
            s.append("on %s %s" % (src, ";".join(cmds)))
        for _ in range(r.randrange(1, 5)):
            x = r.random()
            if style in (0, 1) or x < .6:
                s.append("m steps %d %d" % (r.choice([-1, -1, -1, 0, 5]), r.randrange(1, 6)))
            else:
                s.append("m " + self.op(evts, True))
        s.append(self.run())
        return s

    def p15(self, k):
        r = self.r
        s = self.head()
        evts = [0]
        s.append("evt 0")
        tight = r.random() < .35     # steps that end around their deadline, one after the other
        def busy():
            if tight:
                return r.choice(["busy %d 0" % r.choice([10, 10, 10, 9, 20])] * 4 + ["pause 2"])
            return r.choice(["busy %d %d" % (r.choice([1, 5, 9, 10, 11, 20, 50, 100, 1000, 1999, 2000, 2001]), r.random() < .7), "pause 4"])
        def wden():
            if tight:
                return "wden 10 %d" % r.randrange(1, 5)
            return "wden %d %d" % (r.choice([10, 10, 20, 50, 1000, 2000, 2500, 1, 0]), r.randrange(1, 5))
        def cmds():
            c = []
            for _ in range(r.randrange(1, 5)):
                x = r.random()
                c.append(busy() if x < .6 else wden() if x < .75 else "wdis" if x < .88 else
                         r.choice(["iadd %d %d 0" % (r.randrange(2), r.randrange(1, 4)), "esig 0"]))
            return ";".join(c)
        if tight:
            s += ["on e0 " + busy() for _ in range(6)]
        for src in ["i%d.%d" % (a, b) for a in range(2) for b in range(1, 4)] + ["e0"]:
            for _ in range(r.randrange(0, 3) + tight):
                s.append("on %s %s" % (src, cmds()))
        if r.random() < .85:
            s.append("m " + wden())
        if r.random() < .3:
            s.append("m pause 3")
        for _ in range(r.randrange(2, 8)):
            x = r.random()
            if x < .55:
                for _ in range(r.randrange(1, 4)):
                    s.append("m " + r.choice(["iadd %d %d 0" % (r.randrange(2), r.randrange(1, 4)), "esig 0"]))
                if r.random() < .3:
                    s.append("m sleep %d" % r.choice([5, 10, 100]))
                s.append("m steps %d %d" % (r.choice([0, 0, 5, 100]) if not tight else 0, r.randrange(1, 4)))
            elif x < .65:
                s.append("m " + wden())
            elif x < .72:
                s.append("m wdis")
            elif x < .85:
                s.append("m busy %d 1" % r.choice([10, 100, 5000]))
            else:
                s.append("m steps %d 1" % r.choice([20, 100]))
        if r.random() < .3:
            for _ in range(r.randrange(1, 4)):
                s.append("th 1 " + r.choice(["iadd %d %d 0" % (r.randrange(2), r.randrange(1, 4)), "esig 0", "wake", "pause 4"]))
        s.append(self.run())
        return s
