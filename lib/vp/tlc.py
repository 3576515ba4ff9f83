"""Running TLC: trace validation and model checking."""
import os, re, subprocess, shutil, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def classpath():
    d = "/opt/veriftools/tla"
    return ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar"))

class TlcError(Exception):
    pass

def run_tlc(module, cfg, scratch, args=(), env=None, workers=1, mem="2g", timeout=800):
    """module and cfg are names in spec/"""
    meta = os.path.join(scratch, "meta-%s-%d" % (os.path.basename(cfg), len(os.listdir(scratch))))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return -1, (o.decode(errors="replace") if isinstance(o, bytes) else o) + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def validate(module, lines, scratch, jobs=8, cfg=None, env=None, timeout=300, mem="2g", undecided=None):
    """lines: trace lines (str, JSON). Returns (rejected: [(index, event#)], states, transitions).
    undecided: receives the indices of the traces that could not be decided in time"""
    undecided = [] if undecided is None else undecided
    if not lines:
        return [], 0, 0
    # balance chunks by size
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    total = sum(map(len, lines))
    n = max(1, min(jobs, len(lines), total // 60000 + 1))
    chunks, load = [[] for _ in range(n)], [0] * n
    for i in order:
        k = load.index(min(load))
        chunks[k].append(i)
        load[k] += len(lines[i]) + 500
    t0 = time.time()
    def some(idx, name, limit):
        """validate these lines; None when time runs out"""
        f = os.path.join(scratch, "chunk-%s-%s.ndjson" % (module, name))
        with open(f, "w") as o:
            for i in idx:
                o.write(lines[i] + "\n")
        sub = os.path.join(scratch, "tlc-%s-%s" % (module, name))
        os.makedirs(sub, exist_ok=True)
        ev = dict(env or {})
        ev["TRACE"] = f
        rc, out = run_tlc(module, cfg or module + ".cfg", sub, env=ev, timeout=limit, mem=mem)
        os.unlink(f)
        if rc == -1 and out.endswith("TIMEOUT"):
            return None
        m = re.search(r'<<"TOTAL", (\d+), "REJECTED", (\d+)>>', out)
        if rc != 0 or not m or int(m.group(1)) != len(idx):
            raise TlcError("TLC failed on %s (%d):\n%s" % (module, rc, out[out.find("Error:"):][:2500] if "Error:" in out else out[-2500:]))
        rej = [(idx[int(a) - 1], int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)]
        assert len(rej) == int(m.group(2))
        g, d = stats(out)
        return rej, d, g
    def one(k):
        r = some(chunks[k], "%d" % k, timeout)
        if r is not None:
            return r
        # a trace that has too many explanations: the others are still validated
        rej, d, g, todo = [], 0, 0, [chunks[k]]
        while todo:
            c = todo.pop()
            q = max(1, (len(c) + 7) // 8)
            for j in range(0, len(c), q):
                part = c[j:j + q]
                r = some(part, "%d-x" % k, 40) if time.time() - t0 < timeout + 200 else None
                if r is not None:
                    rej, d, g = rej + r[0], d + r[1], g + r[2]
                elif len(part) > 1 and time.time() - t0 < timeout + 200:
                    todo.append(part)
                else:
                    undecided.extend(part)
        return rej, d, g
    rej, st, tr = [], 0, 0
    with cf.ThreadPoolExecutor(n) as ex:
        for r, d, g in ex.map(one, range(n)):
            rej += r
            st += d
            tr += g
    return sorted(rej), st, tr
