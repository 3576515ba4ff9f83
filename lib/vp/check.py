"""Running the check of one property: generated scripts against the real code, validated by TLC
against the specification, plus model checking of the specification itself."""
import json, os, re, shutil, sys, tempfile, time, traceback
from . import build, drv, tlc

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = os.path.join(VERIF, "out")

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.models = []
        self.ops = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.exes = {}
        self.known = load_known(pid)
        self.extra = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def driver(self, name):
        if name not in self.exes:
            self.exes.update(build.build(self.scratch, [name], san="sched" if name == "drv_sched" else "asan"))
        return self.exes[name]

    def violation(self, what, replay):
        for k in self.known:
            if k[0](what, replay):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k[1]))
                return
        d = os.path.join(OUT, self.pid)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "replay-%d.json" % len(self.violations))
        replay["property"] = self.pid
        replay["what"] = what
        with open(f, "w") as o:
            json.dump(replay, o, indent=1)
        self.violations.append(f)
        print("# %s" % what)
        print("VIOLATION property=%s replay=%s" % (self.pid, f), flush=True)

    def validate_scripts(self, driver, module, scripts, cfg=None, env=None, jobs=8, drvjobs=8, timeout=600,
                         runner=None, counter=None, mem="2g"):
        """run the scripts, validate the traces; rejected ones are run again before being reported"""
        exe = runner or self.driver(driver)
        run = exe if callable(exe) else (lambda s, tag: drv.run(exe, s, self.scratch, jobs=drvjobs, env=env, timeout=timeout, tag=tag))
        lines = run(scripts, "a")
        scripts = [x for x, y in zip(scripts, lines) if y is not None]
        lines = [y for y in lines if y is not None]
        und = []
        rej, st, tr = tlc.validate(module, lines, self.scratch, jobs=jobs, cfg=cfg, timeout=self.n(300, 1500), mem=mem, undecided=und)
        self.states += st
        self.transitions += tr
        self.traces += len(lines) - len(rej) - len(und)
        if und:
            self.notes.append("not decided in time (not counted): %s" % " ".join(scripts[i][0] for i in und[:20]))
            print("# note: %s" % self.notes[-1])
        for l in lines:
            for m in re.finditer(r'"op":\s?"(\w+)"', l):
                self.ops[m.group(1)] = self.ops.get(m.group(1), 0) + 1
        if len(self.samples) < 4 and scripts:
            s = scripts[min(len(scripts) - 1, 1 + len(scripts) // 3)]
            self.samples.append({"script": s[0], "lines": [x[:160] for x in s[1][:25]]})
        for i, e in rej[:6]:
            again = 0
            for k in range(2):
                l2 = run([scripts[i]], "r%d" % k)
                r2, _, _ = tlc.validate(module, l2, self.scratch, jobs=1, cfg=cfg, timeout=timeout, mem=mem)
                if r2:
                    again += 1
                    line, ev = l2[0], r2[0][1]
            if not again:
                self.notes.append("script %s rejected once at event %d, accepted when run again" % (scripts[i][0], e))
                print("# note: %s" % self.notes[-1])
                continue
            try:
                t = json.loads(line)["ev"]
                bad = json.dumps(t[ev - 1])[:600] if ev <= len(t) else "(end)"
            except ValueError:
                t, bad = [], "?"
            self.violation("script %s: event %d is not allowed by the specification %s: %s" % (scripts[i][0], ev, module, bad),
                           {"kind": "trace", "driver": driver, "module": module, "cfg": cfg, "script": scripts[i][1], "id": scripts[i][0],
                            "event": ev, "trace": t[max(0, ev - 12):ev]})
        return lines, rej

    def model(self, module, cfg, args=(), workers=4, timeout=600, mem="6g", name=None, env=None):
        """exhaustive check of the specification itself; a failure is an error of ours, not of the code"""
        rc, out = tlc.run_tlc(module, cfg, self.scratch, args=args, workers=workers, timeout=timeout, mem=mem, env=env)
        if rc != 0:
            raise RuntimeError("model %s/%s failed (%d):\n%s" % (module, cfg, rc, out[-4000:]))
        g, d = tlc.stats(out)
        self.states += d
        self.transitions += g
        self.models.append({"model": name or "%s (%s)" % (module, cfg), "distinct_states": d, "transitions": g, "exhaustive": "-simulate" not in args})
        return out

    def rejects(self, module, cfg, variants):
        """the model is not vacuous: with each of these faults put into the algorithm it describes, it fails"""
        base = open(os.path.join(tlc.SPEC, cfg)).read()
        for v in variants:
            text, n = re.subn(r"\b%s = FALSE" % v, v + " = TRUE", base)
            assert n == 1, (module, v)
            f = os.path.join(self.scratch, "%s-%s.cfg" % (module, v))
            with open(f, "w") as o:
                o.write(text)
            rc, out = tlc.run_tlc(module, f, self.scratch, workers=4, timeout=300, mem="4g")
            if rc not in (12, 13):          # safety, liveness
                raise RuntimeError("model %s does not reject %s (%d):\n%s" % (module, v, rc, out[-2000:]))
            m = re.search(r"Invariant (\w+) is violated", out)
            self.models.append({"model": "%s with %s" % (module, v), "rejected_by": m.group(1) if m else "temporal property"})

    def evidence(self, level):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_by_operation": dict(sorted(self.ops.items())), "design_models": self.models, "samples": self.samples}
        cov.update(self.extra)
        if level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", self.traces)
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as o:
            json.dump(e, o, indent=1)

def load_known(pid):
    """entries of known-findings.txt: property=<id> match=<regex on the description> text..."""
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\w+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == pid:
                rx = re.compile(m.group(2))
                out.append((lambda what, rep, rx=rx: bool(rx.search(what)), m.group(3)))
    return out

def main(argv):
    from . import props
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Ctx(pid, tier, seed)
    p = props.PROPS[pid]
    try:
        p["run"](c)
        c.evidence(p["level"])
        print("%s %s: %d traces accepted, %d states, %d transitions, %.1f s, %d violations" % (
            pid, tier, c.traces, c.states, c.transitions, time.time() - c.t0, len(c.violations)))
        return 1 if c.violations else 0
    except Exception:
        traceback.print_exc()
        return 1 if c.violations else 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
