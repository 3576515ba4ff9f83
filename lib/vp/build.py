"""Build the library of /repo's working tree and the drivers, in a scratch directory."""
import os, re, subprocess, concurrent.futures as cf

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HARN = os.path.join(VERIF, "harness")

SAN = ["-fsanitize=address",
       "-fsanitize=bounds,shift-exponent,null,alignment,integer-divide-by-zero,bool,vla-bound,return",
       "-fno-sanitize-recover=all"]
CF = ["-g", "-O1", "-fno-omit-frame-pointer", "-fno-common", "-U_FORTIFY_SOURCE",
      "-fno-stack-protector", "-w", "-fno-builtin-malloc", "-fno-builtin-calloc",
      "-fno-builtin-realloc", "-fno-builtin-free", "-fno-builtin-strdup", "-fno-builtin-strndup"]

def sources():
    """C sources of the library as its build system lists them"""
    am = open(os.path.join(REPO, "src", "Makefile.am")).read() if os.path.exists(
        os.path.join(REPO, "src", "Makefile.am")) else ""
    if not am:
        am = open(os.path.join(REPO, "Makefile.am")).read()
    am = am.replace("\\\n", " ")
    out = []
    for m in re.finditer(r"^libpomp_la_SOURCES\s*\+?=\s*(.*)$", am, re.M):
        for f in m.group(1).split():
            if f.endswith(".c"):
                for c in (os.path.join(REPO, "src", f), os.path.join(REPO, f)):
                    if os.path.exists(c):
                        out.append(c)
                        break
    if not out:
        d = os.path.join(REPO, "src")
        out = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".c")]
    return out

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), p.stdout))

def names():
    t = open(os.path.join(HARN, "vw.h")).read()
    t = t[t.index("#define VW_CALLS"):t.index("enum vw_call")]
    return re.findall(r"X\((\w+)\)", t)[1:] if re.findall(r"X\((\w+)\)", t)[0] == "X" else re.findall(r"X\((\w+)\)", t)

def build(scratch, drivers, san="asan"):
    """returns {driver: path}"""
    if drivers == ["drv_py"]:
        p = os.path.join(scratch, "drv_py")
        with open(p, "w") as o:
            o.write('#!/bin/sh\nexec python3 -B -S "%s" "%s" "$@"\n' % (os.path.join(HARN, "drv_py.py"), REPO))
        os.chmod(p, 0o755)
        return {"drv_py": p}
    obj = os.path.join(scratch, "obj-" + san)
    os.makedirs(obj, exist_ok=True)
    flags = CF + SAN
    # sched: memory accesses of the library are scheduling points
    comp = ["clang"] if san == "sched" else ["gcc"]
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]
    redef = []
    for n in names():
        redef += ["--redefine-sym", "%s=vw_%s" % (n, n)]
    def lib(c):
        o = os.path.join(obj, "lib_" + os.path.basename(c)[:-2] + ".o")
        cc = comp + (["-fsanitize-coverage=func,trace-loads,trace-stores"] if san == "sched" else [])
        run(cc + ["-std=gnu99", "-DPOMP_API_EXPORTS", "-DHAVE_TIMER_CREATE=1"] + flags + inc + ["-c", c, "-o", o])
        run(["objcopy"] + redef + [o])
        return o
    def har(n):
        o = os.path.join(obj, n + ".o")
        cpp = os.path.exists(os.path.join(HARN, n + ".cpp"))
        run((["g++", "-std=c++11"] if cpp else comp) + ["-D_GNU_SOURCE", "-I", HARN] + flags + inc +
            ["-c", os.path.join(HARN, n + (".cpp" if cpp else ".c")), "-o", o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        fl = [ex.submit(lib, c) for c in sources()]
        fh = {n: ex.submit(har, n) for n in ["vw", "tr"] + list(drivers)}
        libs = [f.result() for f in fl]
        ho = {n: f.result() for n, f in fh.items()}
    out = {}
    for d in drivers:
        p = os.path.join(scratch, d)
        link = ["g++"] if os.path.exists(os.path.join(HARN, d + ".cpp")) else comp
        run(link + flags + ["-o", p, ho[d], ho["tr"], ho["vw"]] + libs + ["-lpthread", "-lrt", "-lm"])
        out[d] = p
    return out
