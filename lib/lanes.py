"""Which lanes decide which property."""


def L(name, harness, args, variant="ship", weight=1.0, **kw):
    d = dict(name=name, harness=harness, args=args, variant=variant, weight=weight)
    d.update(kw)
    return d


def abi(name, mode, abis, aspects, variant="ship", weight=1.0, extra=(), **kw):
    return L(name, "abi", ["--mode=" + mode, "--abi=" + abis, "--aspects=" + aspects] + list(extra), variant, weight, **kw)


def ccl(name, mode, abis, aspects, variant="ship", weight=1.0, extra=(), **kw):
    return L(name, "ccl", ["--mode=" + mode, "--abi=" + abis, "--aspects=" + aspects] + list(extra), variant, weight, **kw)


def hist(name, abis, variant="ship", modes="call,closure,gocall,goclosure,rawcall,rawclosure", extra=(), **kw):
    return L(name, "abi", ["--mode=" + modes, "--abi=" + abis, "--history=12"] + list(extra), variant, **kw)


import os, re
WRAPS = re.search(r'SIM_WRAPS "([^"]*)"', open(os.path.dirname(os.path.abspath(__file__)) + "/simos.hpp").read()).group(1)
WRAP = ("-Wl," + ",".join("--wrap=" + x for x in WRAPS.split(",")),)


def sig(name, abis, modes, variant="ship", **kw):
    return L(name, "abi", ["--mode=" + modes, "--abi=" + abis, "--signals=1"], variant, **kw)


def pool(name, mode, aspects, variant="ship", weight=1.0, **kw):
    return L(name, "pool", ["--mode=" + mode, "--aspects=" + aspects] + (["--notramp"] if variant == "notramp" else []), variant, weight, link=WRAP, src=(), tmp=True, **kw)


def conc(name, mode, variant="ship", weight=1.0, **kw):
    return L(name, "conc", ["--mode=" + mode] + (["--notramp"] if "notramp" in variant else []), variant, weight, link=WRAP, src=(), tmp=True, **kw)


def tree(name, mode, variant="ship", weight=1.0, abis="sysv", **kw):
    return L(name, "tree", ["--mode=" + mode, "--abi=" + abis], variant, weight, src=(), flags=("-O2", "-g1"), **kw)


def i386(name, modes, blob="gcc", abis="sysv,stdcall,thiscall,fastcall,cdecl", extra=(), **kw):
    return L(name, "i386", ["--mode=" + modes, "--abi=" + abis] + list(extra), blob=blob, src=(), **kw)


PORTCC = {"apple": "clang --target=arm64-apple-macosx-elf -mno-outline-atomics", "a64": "clang --target=aarch64-linux-gnu -mno-outline-atomics", "rv64": "clang --target=riscv64-linux-gnu -march=rv64imafd -mabi=lp64d -mcmodel=medany -mno-relax",
          "la64": "clang --target=loongarch64-linux-gnu -mabi=lp64d -mno-relax", "a32": "clang --target=armv7a-linux-gnueabihf -mcpu=cortex-a15 -mfpu=vfpv3-d16 -marm",
          "rv32": "clang --target=riscv32-linux-gnu -march=rv32imafd -mabi=ilp32d -mno-relax", "rv32s": "clang --target=riscv32-linux-gnu -march=rv32ima -mabi=ilp32 -mno-relax", "rv32f": "clang --target=riscv32-linux-gnu -march=rv32imafd -mabi=ilp32f -mno-relax",
          "a32s": "clang --target=armv7a-linux-gnueabi -mcpu=cortex-a15 -mfpu=vfpv3-d16 -mfloat-abi=softfp -marm",
          "ppc64": "clang --target=powerpc64le-linux-gnu -mcpu=pwr8 -mno-vsx -maltivec", "ppc64d": "clang --target=powerpc64le-linux-gnu -mcpu=pwr8 -mno-vsx -maltivec -mlong-double-64",
          "ppc64q": "clang --target=powerpc64le-linux-gnu -mcpu=pwr9 -mfloat128 -mabi=ieeelongdouble"}


def port(name, cpu, modes, image="O2", extra=(), cc=None, **kw):
    return L(name, "port", ["--mode=" + modes] + list(extra) + (["--cc=" + PORTCC[cc or cpu]] if "compiled" in modes else []), port=(cpu, image), src=(), tmp="compiled" in modes, flags=("-O2", "-g1", "-DPORT_" + cpu.upper()), **kw)


PALL = "call,closure,gocall,goclosure,rawcall,rawclosure"
def ports(cpu, *more, extra=()):
    return [port("calls", cpu, "call,gocall", weight=2), port("closures", cpu, "closure,goclosure", weight=2), port("compiled", cpu, "compiled", weight=4, extra=extra), port("variadic", cpu, "call,closure", extra=["--var=1"]),
            port("raw", cpu, "rawcall,rawclosure"), port("layout", cpu, "layout", weight=0.5), port("O0", cpu, PALL, "O0")] + list(more)


MS = "win,gnuw"
OWN = ["--own=25"]
ALL = "sysv,win,gnuw"
LANES = {
    "C01": [abi("model", "call", "sysv", "A", weight=3), ccl("compiled", "call", "sysv", "A", weight=4), abi("model-nocet", "call", "sysv", "A", "nocet"),
            abi("model-debug", "call", "sysv", "A", "debug"), abi("model-clang", "call", "sysv", "A", "clang"), abi("model-asan", "call", "sysv", "A", "asan")],
    "C02": [abi("model", "call", "sysv", "R", weight=3), ccl("compiled", "call", "sysv", "R", weight=4), abi("model-nocet", "call", "sysv", "R", "nocet", weight=2),
            abi("model-debug", "call", "sysv", "R", "debug"), abi("model-clang", "call", "sysv", "R", "clang")],
    "C03": [abi("model", "closure", "sysv", "AR", weight=3), ccl("compiled", "closure", "sysv", "AR", weight=4), abi("model-nocet", "closure", "sysv", "AR", "nocet", weight=2),
            abi("model-notramp", "closure", "sysv", "AR", "notramp"), abi("model-debug", "closure", "sysv", "AR", "debug"), abi("model-clang", "closure", "sysv", "AR", "clang")],
    "C04": [abi("model", "call,closure", MS, "ARM", weight=3), ccl("compiled", "call,closure", MS, "ARM", weight=5), abi("model-nocet", "call,closure", MS, "ARM", "nocet", weight=2),
            abi("model-notramp", "closure", MS, "ARM", "notramp"), abi("model-clang", "call,closure", MS, "ARM", "clang")],
    "C05": [abi("model", "call", ALL, "AR", weight=3, extra=["--var=1"]), ccl("compiled", "var", "sysv", "AR", weight=3), ccl("compiled-ms", "var", MS, "AR", weight=3), L("acceptance", "prep", ["--mode=var"], weight=2),
            abi("model-nocet", "call", ALL, "AR", "nocet", extra=["--var=1"])],
    "C06": [L("model", "prep", ["--mode=layout"], weight=2), L("compiled", "prep", ["--mode=cc"], weight=3), L("model-debug", "prep", ["--mode=layout"], "debug"), L("model-clang", "prep", ["--mode=layout"], "clang"), L("model-asan", "prep", ["--mode=layout"], "asan")],
    "C07": [L("model", "prep", ["--mode=valid"], weight=3), L("model-debug", "prep", ["--mode=valid"], "debug"), L("model-clang", "prep", ["--mode=valid"], "clang"), L("model-asan", "prep", ["--mode=valid"], "asan"), L("layout", "prep", ["--mode=layout"])],
    "C08": [abi("calls", "call,gocall", ALL, "M", weight=3), abi("closures", "closure,goclosure", ALL, "M", weight=2), abi("asan", "call,closure", "sysv", "M", "asan", weight=2),
            abi("calls-debug", "call", ALL, "M", "debug"), ccl("compiled", "call,closure", ALL, "M", weight=2)],
    "C09": [abi("calls", "call,gocall", ALL, "S", weight=3), abi("closures", "closure,goclosure", ALL, "S", weight=3), abi("nocet", "call,closure", ALL, "S", "nocet"),
            abi("notramp", "closure", ALL, "S", "notramp"), abi("clang", "call,closure", ALL, "S", "clang")],
    "C10": [abi("calls", "rawcall", ALL, "ARM", weight=2), abi("closures", "rawclosure", ALL, "ARM", weight=2), abi("notramp", "rawclosure", ALL, "ARM", "notramp"), abi("asan", "rawcall,rawclosure", "sysv", "ARM", "asan")],
    "C11": [abi("calls", "javacall", ALL, "ARM", weight=2), abi("closures", "javaclosure", ALL, "ARM", weight=2), abi("notramp", "javaclosure", ALL, "ARM", "notramp"), abi("asan", "javacall,javaclosure", "sysv", "ARM", "asan")],
    "C12": [abi("calls", "gocall", ALL, "AR", weight=2), abi("closures", "goclosure", ALL, "AR", weight=2), abi("nocet", "gocall,goclosure", ALL, "AR", "nocet"), abi("clang", "gocall,goclosure", ALL, "AR", "clang")],
    "C13": [pool("histories", "hist", "IAW", weight=4), pool("histories-notramp", "hist", "IAW", "notramp", weight=2), pool("histories-clang", "hist", "IAW", "clang"), pool("histories-debug", "hist", "IAW", "debug"), pool("faults", "fault", "I")],
    "C14": [pool("cycles", "cycle", "B", weight=4), pool("cycles-notramp", "cycle", "B", "notramp", weight=2), pool("histories", "hist", "B", weight=2), pool("histories-notramp", "hist", "B", "notramp"), pool("cycles-nocet", "cycle", "B", "nocet")],
    "C15": [pool("faults", "fault", "IAFW", weight=4), pool("faults-notramp", "fault", "IAFW", "notramp", weight=3), pool("search", "search", "AF"), pool("faults-clang", "fault", "IAFW", "clang"), pool("faults-debug", "fault", "IAFW", "debug")],
    "C16": [conc("schedules", "sched", "step", weight=4), conc("schedules-notramp", "sched", "step-notramp", weight=2), conc("races", "mt", "tsan", weight=4), conc("races-notramp", "mt", "tsan-notramp", weight=2), conc("threads", "mt", "ship")],
    "C17": [tree("exceptions", "eh", weight=3), tree("exceptions-nocet", "eh", "nocet"), tree("exceptions-notramp", "eh", "notramp"), tree("exceptions-clang", "eh", "clang"), tree("exceptions-debug", "eh", "debugO2"),
            tree("jumps", "jmp", weight=2), tree("jumps-notramp", "jmp", "notramp"), tree("jumps-clang", "jmp", "clang")],
    "C18": [tree("trees", "nest", abis=ALL, weight=3), tree("trees-nocet", "nest", "nocet", abis=ALL), tree("trees-notramp", "nest", "notramp", abis=ALL), tree("trees-clang", "nest", "clang", abis=ALL), tree("trees-debug", "nest", "debug", abis=ALL)],
    "C19": [pool("forks", "fork", "IAW", weight=3), pool("forks-notramp", "fork", "IAW", "notramp", weight=1), pool("forks-nocet", "fork", "IAW", "nocet")],
    "C20": [pool("search", "search", "OAI", weight=3), pool("search-debug", "search", "OAI", "debug"), pool("histories", "hist", "O", weight=1)],
    "C22": [hist("histories", ALL, weight=3), hist("histories-java", ALL, modes="javacall,javaclosure"), hist("histories-var", ALL, modes="call,closure", extra=["--var=1"]), hist("histories-notramp", ALL, "notramp"), hist("histories-debug", ALL, "debug"), hist("histories-asan", "sysv", "asan")],
    "C23": [sig("unix64", "sysv", "call,closure,gocall,goclosure", weight=3), sig("ms", MS, "call,closure,gocall,goclosure", weight=2), sig("raw", ALL, "rawcall,rawclosure,javacall,javaclosure"), sig("nocet", ALL, "call,closure", "nocet"),
            sig("notramp", ALL, "closure,goclosure", "notramp"), sig("clang", ALL, "call,closure", "clang"), sig("debug", ALL, "call,closure", "debug")],
    "C24": [i386("calls", "call,gocall", weight=3), i386("closures", "closure,goclosure", weight=3), i386("variadic", "call", abis="sysv,cdecl", extra=["--var=1"]), i386("raw", "rawcall,rawclosure,pack", weight=2), i386("layout", "layout"),
            i386("pic", "call,closure,gocall,goclosure,rawcall,rawclosure", "pic"), i386("clang", "call,closure,gocall,goclosure,rawcall,rawclosure", "clang"), i386("O0", "call,closure,gocall,goclosure,rawcall,rawclosure", "O0")],
    "C25": ports("a64", port("win", "a64", "call,closure,rawcall,rawclosure", extra=["--abi=2"]), port("win-compiled", "a64", "compiled", weight=2, extra=["--abi=2"]), port("win-variadic", "a64", "call,closure", extra=["--abi=2", "--var=1"]), port("landing", "a64", PALL, "bti", extra=["--landing=1"])),
    "C26": ports("rv64", port("soft", "rv64", PALL, "rvsoft", extra=["--fpregs=0"]), port("single", "rv64", PALL, "rvsingle", extra=["--fpregs=1"])),
    "C27": ports("la64", port("soft", "la64", PALL, "lasoft", extra=["--fpregs=0"])),
    "C29": ports("rv32", port("soft", "rv32", PALL, "rv32soft", extra=["--fpregs=0"]), port("soft-compiled", "rv32", "compiled", "rv32soft", weight=2, cc="rv32s", extra=["--fpregs=0"]),
                 port("single", "rv32", PALL, "rv32single", extra=["--fpregs=1"]), port("single-compiled", "rv32", "compiled", "rv32single", weight=2, cc="rv32f", extra=["--fpregs=1"])),
    "C28": ports("a32", port("base-compiled", "a32", "compiled", weight=3, cc="a32s", extra=["--abi=1"]), extra=["--abi=2"]),
    "C31": ports("ppc64", port("ld64", "ppc64", PALL, extra=["--abi=9"]), port("ld64-compiled", "ppc64", "compiled", weight=2, cc="ppc64d", extra=["--abi=9"]),
                 port("quad", "ppc64", PALL, weight=2, extra=["--abi=15"]), port("quad-compiled", "ppc64", "compiled", weight=2, cc="ppc64q", extra=["--abi=15"]),
                 port("compat", "ppc64", PALL, weight=0.5, extra=["--abi=10"]), port("compat-ld64", "ppc64", PALL, weight=0.5, extra=["--abi=8"]), port("novec", "ppc64", PALL, "novec")),
    "C32": [port("calls", "apple", "call", weight=2), port("closures", "apple", "closure", weight=2), port("compiled", "apple", "compiled", weight=3), port("compiled-variadic", "apple", "compiled", weight=2, extra=["--var=1"]), port("variadic", "apple", "call,closure", extra=["--var=1"]),
            port("raw", "apple", "rawcall,rawclosure"), port("layout", "apple", "layout", weight=0.5), port("O0", "apple", "call,closure,rawcall,rawclosure", "O0")],
    "C33": [port("histories", "apple", "table", weight=2), port("small-tables", "apple", "table", "small", weight=3), port("small-tables-O0", "apple", "table", "smallO0"), port("threads", "apple", "threads", "small", weight=3), port("threads-O0", "apple", "threads", "smallO0"), port("threads-large", "apple", "threads")],
    "C30": [abi("calls", "call,gocall", "sysv", "ARMS", weight=3, extra=OWN), abi("closures", "closure,goclosure", "sysv", "ARMS", weight=3, extra=OWN), abi("ms", "call,closure,gocall,goclosure", MS, "ARMS", weight=2, extra=OWN),
            ccl("compiled", "call,closure", "sysv", "ARMS", weight=4, extra=OWN), ccl("compiled-ms", "call,closure", MS, "ARMS", weight=3, extra=OWN), ccl("compiled-var", "var", "sysv", "ARMS", weight=2, extra=OWN), ccl("compiled-ms-var", "var", MS, "ARMS", extra=OWN),
            abi("variadic", "call", ALL, "ARMS", extra=OWN + ["--var=1"]), abi("raw", "rawcall,rawclosure", ALL, "ARMS", extra=OWN), hist("histories", ALL, extra=OWN), abi("notramp", "closure", ALL, "ARMS", "notramp", extra=OWN),
            abi("clang", "call,closure", ALL, "ARMS", "clang", extra=OWN), abi("debug", "call,closure", ALL, "ARMS", "debug", extra=OWN), abi("asan", "call,closure", "sysv", "ARMS", "asan", extra=OWN)],
}
META = {p: {} for p in LANES}
