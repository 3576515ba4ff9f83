"""Running the drivers on scripts."""
import os, subprocess, json, concurrent.futures as cf

ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=512:"
       "abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:handle_abort=1",
       "UBSAN_OPTIONS": "exitcode=66:print_stacktrace=1", "PATH": "/usr/bin:/bin"}

class DriverError(Exception):
    pass

def run(exe, scripts, scratch, jobs=8, env=None, timeout=800, tag="x"):
    """scripts: [(id, [lines])] -> trace lines in the same order"""
    if not scripts:
        return []
    n = max(1, min(jobs, len(scripts)))
    def one(k):
        part = scripts[k::n]
        fi = os.path.join(scratch, "scr-%s-%d" % (tag, k))
        fo = os.path.join(scratch, "out-%s-%d" % (tag, k))
        with open(fi, "w") as o:
            for i, ls in part:
                o.write("== %s\n" % i)
                o.writelines(x + "\n" for x in ls)
        e = dict(ENV)
        e.update(env or {})
        d = os.path.join(scratch, "cwd-%s-%d" % (tag, k))
        os.makedirs(d, exist_ok=True)
        p = subprocess.run([exe, fi, fo], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, cwd=d)
        lines = open(fo, errors="replace").read().splitlines()
        os.unlink(fi)
        os.unlink(fo)
        # the driver stops early after several hangs
        if p.returncode == 0 and len(lines) < len(part) and sum('"op":"hang"' in x for x in lines) >= 2:
            lines += [None] * (len(part) - len(lines))
        if p.returncode != 0 or len(lines) != len(part):
            raise DriverError("%s failed (%d, %d of %d): %s" % (exe, p.returncode, len(lines), len(part),
                              p.stdout.decode(errors="replace")[-2000:]))
        return lines
    res = [None] * len(scripts)
    with cf.ThreadPoolExecutor(n) as ex:
        for k, ls in enumerate(ex.map(one, range(n))):
            for j, l in enumerate(ls):
                res[k + j * n] = l
    return res
