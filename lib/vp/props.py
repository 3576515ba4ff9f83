"""What is run for each property."""
from . import gen_codec, gen_cpp, gen_ctx, gen_loop, gen_py, gen_sched

def codec(names, quick, thorough, faults=0, module="CodecTrace", driver="drv_codec", gen=gen_codec):
    """names: generator methods of Gen; faults: number of variants with failures per script"""
    def run(c):
        g = gen.Gen("%s-%d" % (c.pid, c.seed))
        scripts = []
        for k in range(c.n(quick, thorough)):
            for nm in names:
                s = getattr(g, nm)(k)
                if not faults:
                    scripts.append(("%s-%d" % (nm, k), s))
                else:
                    v = g.faulted(s)
                    for j, x in enumerate(g.r.sample(v, min(faults, len(v)))):
                        scripts.append(("%s-%d-%d" % (nm, k, j), x))
        # by lots, so that the memory of TLC stays small
        for k in range(0, len(scripts), 4000):
            c.validate_scripts(driver, module, scripts[k:k + 4000])
            if c.violations:
                break
    return run

def loop(names, quick, thorough, faults=0):
    return codec(names, quick, thorough, faults, module="LoopTrace", driver="drv_loop", gen=gen_loop)

def sched(names, quick, thorough):
    return codec(names, quick, thorough, module="SchedTrace", driver="drv_sched", gen=gen_sched)

def ctx(names, quick, thorough, faults=0):
    return codec(names, quick, thorough, faults, module="CtxTrace", driver="drv_ctx", gen=gen_ctx)

def cpp(names, quick, thorough):
    return codec(names, quick, thorough, module="CppTrace", driver="drv_cpp", gen=gen_cpp)


def py(names, quick, thorough):
    return codec(names, quick, thorough, module="PyTrace", driver="drv_py", gen=gen_py)

def seq(*fs):
    def run(c):
        for f in fs:
            f(c)
            if c.violations:
                break
    return run

def model(module, quick, thorough=None, **kw):
    def run(c):
        c.model(module, quick if c.quick else thorough or quick, **kw)
    return run

def design(module, *variants):
    """the design model of an algorithm, checked exhaustively; each variant of it with a fault must be rejected"""
    def run(c):
        c.model(module, module + (".cfg" if c.quick else "_deep.cfg"), workers=4 if c.quick else 8, timeout=600 if c.quick else 3000)
        c.rejects(module, module + ".cfg", variants)
    return run

IDLE = design("IdleMC", "SignalFirst", "NoResignal", "ClearAlways")
WATCHDOG = design("WatchdogMC", "NoCounter", "NoReset", "NoSignal")
CLIENT = design("ClientMC", "NoRearm", "LateClear", "NoStopTimer", "StopFlagEarly")
RXFDS = design("RxFdsMC", "OneTable", "Resend")
SENDQ = design("SendQueueMC", "Bypass", "AbortFirst", "FromStart", "QeAlways", "KeepCbs")
DISPATCH = design("DispatchMC", "NoStamp", "NoMask", "KeepRemoved")

PROPS = {
    "P01": dict(level="model_checking", run=seq(codec(["p01"], 1500, 30000), model("StreamDecoderMC", "StreamDecoderMC.cfg", "StreamDecoderMC_deep.cfg", workers=8))),
    "P02": dict(level="model_checking", run=seq(codec(["p02"], 2000, 30000), model("WireMC", "WireMC.cfg"))),
    "P03": dict(level="model_checking", run=codec(["p03"], 2500, 40000)),
    "P04": dict(level="model_checking", run=codec(["p04"], 1500, 20000)),
    "P05": dict(level="model_checking", run=seq(py(["write_read", "read_bad", "stream"], 1200, 20000), codec(["p01", "p02", "p03", "p04"], 250, 3000))),
    "P06": dict(level="model_checking", run=codec(["p06"], 1000, 15000)),
    "P07": dict(level="model_checking", run=codec(["p07"], 3000, 40000)),
    "P08": dict(level="model_checking", run=codec(["p08"], 3000, 40000)),
    "P09": dict(level="model_checking", run=codec(["p09"], 2000, 20000)),
    "P10": dict(level="model_checking", run=seq(loop(["p10"], 2500, 40000), DISPATCH)),
    "P11": dict(level="model_checking", run=seq(loop(["p11"], 3000, 50000), IDLE)),
    "P12": dict(level="model_checking", run=seq(sched(["p12"], 6000, 150000), IDLE)),
    "P13": dict(level="model_checking", run=seq(loop(["p13"], 3000, 50000))),
    "P14": dict(level="model_checking", run=seq(loop(["p14"], 3000, 50000))),
    "P15": dict(level="model_checking", run=seq(sched(["p15"], 5000, 100000), WATCHDOG)),
    "P16": dict(level="model_checking", run=seq(ctx(["p16"], 1500, 16000), ctx(["p16m"], 80, 1000))),
    "P17": dict(level="model_checking", run=seq(ctx(["p17"], 1500, 16000), SENDQ)),
    "P18": dict(level="model_checking", run=seq(ctx(["p18"], 1500, 16000), SENDQ)),
    "P19": dict(level="model_checking", run=seq(ctx(["p19"], 2000, 24000), CLIENT)),
    "P20": dict(level="model_checking", run=seq(ctx(["p20"], 2000, 24000), CLIENT)),
    "P21": dict(level="model_checking", run=seq(ctx(["p21"], 800, 8000))),
    "P22": dict(level="model_checking", run=seq(ctx(["p22"], 1000, 10000), ctx(["p22t", "p22r"], 2500, 40000), RXFDS)),
    "P23": dict(level="model_checking", run=seq(ctx(["p23"], 1500, 16000))),
    "P24": dict(level="model_checking", run=seq(ctx(["p24"], 1200, 10000))),
    "P25": dict(level="model_checking", run=seq(ctx(["p25"], 1500, 16000))),
    "P26": dict(level="model_checking", run=codec(["p26"], 4000, 60000, module="AddrTrace")),
    "P28": dict(level="model_checking", run=seq(ctx(["p28"], 2000, 24000))),
    "P29": dict(level="model_checking", run=seq(cpp(["cmsg"], 1500, 20000), cpp(["cctx"], 800, 10000),
                                                cpp(["cloop"], 800, 10000), cpp(["cdgram"], 600, 8000))),
    "P27": dict(level="model_checking", run=seq(codec(["p01", "p02", "p03", "p04", "p06", "p07", "p08", "p09"], 120, 1500, faults=4),
                                                loop(["p10", "p11", "p13", "p14"], 150, 3000, faults=4),
                                                ctx(["p16", "p17", "p18", "p19", "p20", "p21", "p22", "p23", "p24", "p25"], 40, 800, faults=3))),
}

NA = {}
NOTE = ("Every execution explored was checked, event by event, to be a behaviour of the specification; executions are seeded-random "
        "and bounded, so the assurance is that of the executions explored plus the exhaustive check of the specification within small "
        "constants. Trusted: TLC, the driver's recording, gcc's sanitizers, the interposition layer.")
