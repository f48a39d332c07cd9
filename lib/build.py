"""Build the library under test (from /repo's working tree) in several variants, and the harnesses against it."""
import os, re, subprocess, sys, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CSRC = ["src/closures.c", "src/java_raw_api.c", "src/prep_cif.c", "src/raw_api.c", "src/tramp.c", "src/types.c", "src/x86/ffi64.c", "src/x86/ffiw64.c"]
ASRC = ["src/x86/unix64.S", "src/x86/win64.S"]
BASE = ["-O3", "-fomit-frame-pointer", "-fstrict-aliasing", "-ffast-math", "-fexceptions", "-w"]
# name -> (compiler, flags, extra defines, undefined config macros, link flags)
VARIANTS = {
    "ship":   ("gcc", BASE + ["-g1"], [], []),                      # the flags of the shipped build
    "nocet":  ("gcc", BASE + ["-fcf-protection=none"], [], []),     # other jump table and trampoline layout
    "notramp": ("gcc", BASE, [], ["FFI_EXEC_STATIC_TRAMP"]),         # closures in anonymous executable memory
    "debug":  ("gcc", ["-O0", "-g", "-fexceptions", "-w"], ["FFI_DEBUG"], []),
    "debugO2": ("gcc", ["-O2", "-g", "-fexceptions", "-w"], [], []),
    "clang":  ("clang", ["-O2", "-fexceptions", "-w"], [], []),
    "asan":   ("gcc", ["-O1", "-g", "-fexceptions", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment", "-w"], [], []),
    "tsan":   ("gcc", ["-O1", "-g", "-fexceptions", "-fsanitize=thread", "-w"], [], []),
    "pic":    ("gcc", BASE + ["-fPIC", "-DPIC"], [], []),
    "step": ("gcc", ["-O1", "-g", "-fexceptions", "-fsanitize-coverage=trace-pc", "-w"], [], []),      # a scheduling point at every basic block
    "step-notramp": ("gcc", ["-O1", "-g", "-fexceptions", "-fsanitize-coverage=trace-pc", "-w"], [], ["FFI_EXEC_STATIC_TRAMP"]),
    "tsan-notramp": ("gcc", ["-O1", "-g", "-fexceptions", "-fsanitize=thread", "-w"], [], ["FFI_EXEC_STATIC_TRAMP"]),
    "cov":    ("clang", ["-O1", "-g", "-fexceptions", "-fsanitize=fuzzer-no-link", "-w"], [], []),
}


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        raise SystemExit(2)
    return p.stdout


# the i386 port, built without a C library and loaded by harness/i386.cpp
BLOBS = {"gcc": ["gcc", "-O2", "-fno-pic"], "pic": ["gcc", "-O2", "-fPIC", "-fvisibility=hidden"], "clang": ["clang", "-O2"], "O0": ["gcc", "-O0", "-fno-pic", "-fcf-protection=none"]}
SRC32 = ["src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/java_raw_api.c", "src/x86/ffi.c", "src/x86/sysv.S"]

# other ports, run in an instruction interpreter by harness/port.cpp: name -> (macro, clang target, directory, TARGET, flags, static trampolines)
PORTS = {"a64": ("PORT_A64", "aarch64-linux-gnu", "aarch64", "AARCH64", ["-mno-outline-atomics"], True),
         "apple": ("PORT_APPLE", "arm64-apple-macosx-elf", "aarch64", "AARCH64", ["-mno-outline-atomics"], False),
         "rv64": ("PORT_RV64", "riscv64-linux-gnu", "riscv", "RISCV", ["-march=rv64imafd", "-mabi=lp64d", "-mcmodel=medany", "-mno-relax"], False),
         "la64": ("PORT_LA64", "loongarch64-linux-gnu", "loongarch64", "LOONGARCH64", ["-mabi=lp64d", "-mno-relax"], True),
         "rv32": ("PORT_RV32", "riscv32-linux-gnu", "riscv", "RISCV", ["-march=rv32imafd", "-mabi=ilp32d", "-mno-relax"], False),
         "ppc64": ("PORT_PPC64", "powerpc64le-linux-gnu", "powerpc", "POWERPC", ["-mcpu=pwr8", "-mno-vsx", "-maltivec"], True),
         "a32": ("PORT_A32", "armv7a-linux-gnueabihf", "arm", "ARM", ["-mcpu=cortex-a15", "-mfpu=vfpv3-d16", "-marm"], True)}
PORTVAR = {"small": ["-O2", "-DSHIM_PAGE_SHIFT=6"], "smallO0": ["-O0", "-DSHIM_PAGE_SHIFT=6"], "O2": ["-O2"], "O0": ["-O0"], "O1": ["-O1"], "bti": ["-O2", "-mbranch-protection=standard"],
           "novec": ["-O2", "-mno-altivec"], "rvsoft": ["-O2", "-march=rv64ima", "-mabi=lp64"], "rvsingle": ["-O2", "-mabi=lp64f"], "lasoft": ["-O2", "-mabi=lp64s"],
           "rv32soft": ["-O2", "-march=rv32ima", "-mabi=ilp32"], "rv32single": ["-O2", "-mabi=ilp32f"]}


def headers(out, target="X86_64"):
    os.makedirs(out, exist_ok=True)
    t = open(REPO + "/include/ffi.h.in").read()
    for a, b in (("@VERSION@", "3.4.8"), ("@TARGET@", target), ("@HAVE_LONG_DOUBLE@", "1"), ("@HAVE_LONG_DOUBLE_VARIANT@", "0"),
                 ("@FFI_EXEC_TRAMPOLINE_TABLE@", "0"), ("@FFI_VERSION_STRING@", "3.4.8"), ("@FFI_VERSION_NUMBER@", "30408")):
        t = t.replace(a, b)
    open(out + "/ffi.h", "w").write(t)
    open(out + "/ffitarget.h", "w").write(open(REPO + "/src/x86/ffitarget.h").read())
    return out


def config_dir(out, undef, subst=()):
    os.makedirs(out, exist_ok=True)
    t = open(VERIF + "/config/fficonfig.h").read()
    for u in undef:
        t = re.sub(r"#define %s\b.*" % u, "/* #undef %s */" % u, t)
    for a, b in subst:
        t = re.sub(r"#define %s\b.*" % a, "#define %s %s" % (a, b), t)
    open(out + "/fficonfig.h", "w").write(t)
    return out


class Builder:
    def __init__(self, build):
        self.b = build
        os.makedirs(build, exist_ok=True)
        self.inc = headers(build + "/include")
        self.libs = {}
        self.pool = cf.ThreadPoolExecutor(8)

    def lib(self, variant, extra=()):
        """object files of the library in the given variant"""
        key = variant + "".join(extra)
        if key in self.libs:
            return self.libs[key]
        cc, flags, defs, undef = VARIANTS[variant]
        d = "%s/lib-%s%s" % (self.b, variant, hashlib.md5("".join(extra).encode()).hexdigest()[:4] if extra else "")
        conf = config_dir(d, undef)
        srcs = list(CSRC) + list(ASRC)
        if "FFI_DEBUG" in defs:
            srcs.append("src/debug.c")
        inc = ["-I" + conf, "-I" + self.inc, "-I" + REPO + "/include", "-I" + REPO + "/src", "-DHAVE_CONFIG_H"] + ["-D" + x for x in defs] + list(extra)

        def one(s):
            o = "%s/%s.o" % (d, s.replace("/", "_"))
            f = [x for x in flags if not (s.endswith(".S") and x.startswith("-fsanitize"))]
            run([cc] + f + inc + ["-c", REPO + "/" + s, "-o", o])
            return o
        objs = list(self.pool.map(one, srcs))
        self.libs[key] = objs
        return objs

    def harness(self, name, variant, cxx=None, flags=None, extra_src=(), link=(), lib_extra=(), out=None):
        cc, vflags, _, _ = VARIANTS[variant]
        objs = self.lib(variant, lib_extra)
        san = [x for x in vflags if (x.startswith("-fsanitize") and not x.startswith("-fsanitize-coverage")) or x.startswith("-fno-sanitize")]
        cxx = cxx or ("clang++" if cc == "clang" else "g++")
        o = out or "%s/%s-%s" % (self.b, name, variant)
        flags = flags if flags is not None else ["-O1", "-g1"]
        # the harness itself is not instrumented for memory errors (it inspects foreign frames); races are looked for in both
        comp = san if "-fsanitize=thread" in san else []
        hobj = o + ".o"
        run([cxx, "-std=c++17", "-w"] + flags + comp + ["-I" + self.inc, "-I" + VERIF + "/lib", "-c", VERIF + "/harness/%s.cpp" % name, "-o", hobj])
        run([cxx, "-w"] + flags + san + ["-I" + self.inc, hobj] + [x if x.startswith("/") else VERIF + "/" + x for x in extra_src] + objs + ["-o", o, "-lpthread", "-ldl"] + list(link))
        return o

    def blob(self, name):
        d = "%s/i386-%s" % (self.b, name)
        headers(d, "X86")
        config_dir(d, ["HAVE_AS_X86_64_UNWIND_SECTION_TYPE", "HAVE_MEMFD_CREATE"], [("SIZEOF_LONG_DOUBLE", "12"), ("SIZEOF_SIZE_T", "4")])
        w = VERIF + "/lib/i386"
        cc = BLOBS[name] + ["-m32", "-g1", "-w", "-ffreestanding", "-fno-stack-protector", "-nostdinc", "-isystem", w + "/shim", "-isystem", run(["gcc", "-print-file-name=include"]).strip(),
                            "-I" + d, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/x86", "-DHAVE_CONFIG_H"]

        def one(s):
            o = "%s/%s.o" % (d, s.replace("/", "_"))
            run(cc + ["-c", s if s.startswith("/") else REPO + "/" + s, "-o", o])
            return o
        objs = list(self.pool.map(one, SRC32 + [w + "/shim.c", w + "/gate.S"]))
        run(["ld", "-m", "elf_i386", "-static", "--unresolved-symbols=ignore-all", "-Ttext-segment=0x08048000", "-e", "gate_call", "-o", d + "/image"] + objs)
        return d + "/image"

    def port(self, name, variant):
        macro, triple, sub, target, flags, tramp = PORTS[name]
        d = "%s/port-%s-%s" % (self.b, name, variant)
        headers(d, target)
        w32 = name in ("a32", "rv32")
        if name in ("a32", "apple"):   # long double is double
            t = open(d + "/ffi.h").read().replace("#if 1\n", "#if 0\n", 1)
            if name == "apple":   # closures live in tables of trampolines
                t = re.sub(r"#if 0\n(?=  void \*trampoline_table)", "#if 1\n", t)
            open(d + "/ffi.h", "w").write(t)
        open(d + "/ffitarget.h", "w").write(open("%s/src/%s/ffitarget.h" % (REPO, sub)).read())
        config_dir(d, ["HAVE_AS_X86_64_UNWIND_SECTION_TYPE", "HAVE_MEMFD_CREATE", "HAVE_AS_X86_PCREL"] + (["HAVE_LONG_DOUBLE"] if name == "a32" else []), [("SIZEOF_LONG_DOUBLE", "8" if name == "a32" else "16"), ("SIZEOF_SIZE_T", "4")] if w32 else [])
        gen = ["src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/java_raw_api.c"]
        if name == "apple":
            config_dir(d, ["HAVE_AS_X86_64_UNWIND_SECTION_TYPE", "HAVE_MEMFD_CREATE", "HAVE_AS_X86_PCREL", "HAVE_LONG_DOUBLE", "FFI_EXEC_STATIC_TRAMP"], [("SIZEOF_LONG_DOUBLE", "8")])
            t = open(d + "/fficonfig.h").read().replace(".private_extern name", ".hidden name")   # the object format is ELF here
            open(d + "/fficonfig.h", "w").write(t + "\n#define FFI_EXEC_TRAMPOLINE_TABLE 1\n")
            gen.append("src/closures.c")
        srcs = ["ffi.c", "sysv.S"]
        if name == "ppc64":   # several sizes of long double
            srcs = ["ffi.c", "ffi_linux64.c", "linux64.S", "linux64_closure.S"]
            t = open(d + "/fficonfig.h").read().replace("#define HAVE_LONG_DOUBLE 1", "#define HAVE_LONG_DOUBLE_VARIANT 1")
            open(d + "/fficonfig.h", "w").write(t)
        w = VERIF + "/lib/ports"
        cc = ["clang", "--target=" + triple] + flags + PORTVAR[variant] + ["-fno-vectorize", "-fno-slp-vectorize", "-w", "-ffreestanding", "-fno-stack-protector", "-nostdinc", "-isystem", w + "/shim",
              "-isystem", run(["clang", "-print-resource-dir"]).strip() + "/include", "-I" + d, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/" + sub, "-DHAVE_CONFIG_H"] + (["-DSHIM_TRAMP"] if tramp else [])

        def one(s):
            o = "%s/%s.o" % (d, s.replace("/", "_"))
            run(cc + ["-c", s if s.startswith("/") else REPO + "/" + s, "-o", o])
            return o
        objs = list(self.pool.map(one, gen + [w + "/shim.c"] + ["src/%s/%s" % (sub, x) for x in srcs]))
        run(["ld.lld-18", "-static", "--unresolved-symbols=ignore-all", "--image-base=" + ("0x10000000" if w32 else "0x1000000000"), "-e", "shim_probe", "-o", d + "/image"] + objs)
        return d + "/image"
