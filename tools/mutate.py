#!/usr/bin/env python3
"""Small random changes of the library's sources, one at a time, against the lanes: finds what the checks cannot see.
python3 tools/mutate.py OUT.jsonl N SEED [FILE...]     (works on copies under /tmp; never touches /repo)"""
import json, os, random, re, shutil, subprocess, sys, hashlib
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/lib")
import build
from lanes import LANES, WRAP
W = os.environ.get("MUTDIR", "/tmp/mutw")
FILES = {"src/x86/ffi64.c": 90, "src/x86/ffiw64.c": 50, "src/x86/unix64.S": 90, "src/x86/win64.S": 60, "src/prep_cif.c": 50, "src/raw_api.c": 30, "src/java_raw_api.c": 30,
         "src/closures.c": 80, "src/tramp.c": 70, "src/dlmalloc.c": 90, "src/types.c": 12, "src/x86/asmnames.h": 0,
         "src/aarch64/ffi.c": 0, "src/aarch64/sysv.S": 0, "src/riscv/ffi.c": 0, "src/riscv/sysv.S": 0, "src/loongarch64/ffi.c": 0, "src/loongarch64/sysv.S": 0, "src/x86/ffi.c": 0, "src/x86/sysv.S": 0,
         "src/arm/ffi.c": 0, "src/arm/sysv.S": 0, "src/powerpc/ffi_linux64.c": 0, "src/powerpc/ffi.c": 0, "src/powerpc/linux64.S": 0, "src/powerpc/linux64_closure.S": 0}
PORTOF = {"aarch64": ("C25", "a64"), "riscv": ("C26", "rv64"), "loongarch64": ("C27", "la64"), "arm": ("C28", "a32"), "powerpc": ("C31", "ppc64")}
REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" < ", " > "), ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), ("+= ", "= "), ("|= ", "= "), ("-= ", "+= "), ("++", "--"), ("--", "++"), ("& ~", "& "), (" * ", " / "), ("<< ", ">> ")]


def comments(t):   # blank out comments, keeping line structure
    return re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group()), t, flags=re.S)


def sites(path, text):
    out = []; blank = comments(text).split("\n"); raw = text.split("\n"); asm = path.endswith(".S")
    for i, l in enumerate(blank):
        s = l.strip()
        if not s or s.startswith("#") or (i and blank[i - 1].rstrip().endswith("\\") and blank[i - 1].strip().startswith("#define") and not path.endswith("dlmalloc.c")): continue
        def add(new, what):
            if new != l: out.append((i, new, what))
        if asm:
            if s.startswith(".") or s.endswith(":") or s.startswith("/"): continue
            if re.match(r"^[a-zA-Z]", s) or "\t" in l: add("", "delete")
            for m in re.finditer(r"(?<![\w%$.])(\d+)(?=\()", l): add(l[:m.start()] + str(int(m.group(1)) + 8) + l[m.end():], "displacement+8")
            for m in re.finditer(r"\$(\d+)", l): add(l[:m.start(1)] + str(int(m.group(1)) + 1) + l[m.end():], "immediate+1")
            for a, b in (("movq", "movl"), ("movzb", "movsb"), ("movzw", "movsw"), ("movsb", "movzb"), ("movsw", "movzw"), ("movslq", "movl"), ("%rax", "%rdx"), ("%rdx", "%rax"), ("%rcx", "%rdx"), ("%rdi", "%rsi"), ("%rsi", "%rdi"), ("%r10", "%r11"), ("%xmm0", "%xmm1"), ("%r8", "%r9"), ("jnz", "jz"), ("jne", "je"), ("ja", "jae"), ("movsd", "movss"), ("movss", "movsd"), ("movaps", "movlps"), ("movdqa", "movq"), ("fldt", "fldl")):
                if a in l: add(l.replace(a, b, 1), a + "->" + b)
            continue
        for a, b in REL:
            p = l.find(a)
            while p >= 0:
                if not (a in ("<=", ">=") and l[p - 1] in "<>") and not (a == "==" and l[p - 1] in "!<>="): add(l[:p] + b + l[p + len(a):], a.strip() + " -> " + b.strip())
                p = l.find(a, p + len(a))
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", l):
            add(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "constant+1")
            if int(m.group(1)): add(l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():], "constant-1")
        for m in re.finditer(r"!(?=[\w(])", l): add(l[:m.start()] + l[m.end():], "negation dropped")
        m = re.match(r"^(\s*)(if|while) \((.*)\)(\s*\{?\s*)$", l)
        if m: add("%s%s (!(%s))%s" % m.groups(), "condition negated"); 
        if s.endswith(";") and s.count("(") == s.count(")") and not re.match(r"^(return\b.*|break|continue|goto .*|[\w ]+\*?\s*\w+\s*(\[.*\])?)\s*;$", s.rstrip(";") + ";") and (re.match(r"^[\w\->.\[\]\*() ]+\s*[+\-|&*]?=[^=]", s) or re.match(r"^\w+\s*\(.*\);$", s)):
            add(re.match(r"^\s*", l).group() + ";", "statement deleted")
        if re.match(r"^return\b", s): pass
    return out, raw


def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class M:
    def __init__(self):
        shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
        shutil.copytree("/repo/src", W + "/repo/src"); shutil.copytree("/repo/include", W + "/repo/include")
        build.REPO = W + "/repo"; self.B = build.Builder(W + "/b"); self.hobj = {}
        for h, v, fl in (("abi", "ship", ["-O1"]), ("ccl", "ship", ["-O1"]), ("prep", "ship", ["-O1"]), ("pool", "ship", ["-O1"]), ("tree", "ship", ["-O2"]), ("conc", "step", ["-O1"])):
            o = "%s/%s.o" % (W, h); r = sh(["g++", "-std=c++17", "-w"] + fl + ["-I" + self.B.inc, "-I" + VERIF + "/lib", "-c", VERIF + "/harness/%s.cpp" % h, "-o", o]); assert r.returncode == 0, r.stdout; self.hobj[h] = o
        sh(["gcc", "-c", VERIF + "/lib/stubs.S", "-o", W + "/stubs.o"])
        self.orig = {}
        for v in ("ship", "notramp", "step", "nocet", "debug"): self.orig[v] = self.objs(v)
    def objs(self, v):
        self.B.libs.pop(v, None); objs = self.B.lib(v); return {o: hashlib.md5(sh(["objdump", "-d", "-r", "-s", "-j", ".text", "-j", ".rodata", "-j", ".data", "-j", ".eh_frame", "-j", ".rodata.cst16", o]).stdout.split("\n", 3)[-1].encode()).hexdigest() for o in objs}
    def link(self, h, v):
        objs = list(self.orig[v]); o = "%s/x-%s-%s" % (W, h, v); x = [W + "/stubs.o"] if h in ("abi", "ccl", "prep") else []
        r = sh(["g++", self.hobj[h]] + x + objs + ["-o", o, "-lpthread", "-ldl"] + (list(WRAP) if h in ("pool", "conc") else [])); return o if r.returncode == 0 else None


def port_of(f):
    if f in ("src/x86/ffi.c", "src/x86/sysv.S"): return ("C24", "i386")
    if f.startswith("src/riscv") and os.environ.get("MUTRV32"): return ("C29", "rv32")
    return PORTOF.get(f.split("/")[1])


def port_case(m, f, rec, seed, secs):
    """the other ports: images in an interpreter (or 32-bit code), all lanes of their property"""
    prop, cpu = port_of(f); h = "i386" if cpu == "i386" else "port"; key = (cpu,)
    if key not in m.hobj: m.hobj[key] = m.B.harness(h, "ship", flags=["-O2", "-g1"] + ([] if cpu == "i386" else ["-DPORT_" + cpu.upper()]), out=W + "/h-" + cpu)
    lanes = LANES[prop]; changed = False; img = {}
    def text(p): return hashlib.md5(sh(["llvm-objdump-18", "-d", "-s", "-j", ".text", "-j", ".rodata", "-j", ".data", p]).stdout.split("\n", 3)[-1].encode()).hexdigest()
    clean = m.__dict__.setdefault("clean", {})
    for l in lanes:
        v = l.get("blob") or l["port"]
        if v in img: continue
        if v not in clean:
            t = open("%s/repo/%s" % (W, f)).read(); open("%s/repo/%s" % (W, f), "w").write(open("/repo/" + f).read()); clean[v] = text(m.B.blob(v) if cpu == "i386" else m.B.port(*v)); open("%s/repo/%s" % (W, f), "w").write(t)
        try: img[v] = m.B.blob(v) if cpu == "i386" else m.B.port(*v)
        except SystemExit: rec["result"] = "does not compile"; return
        changed |= text(img[v]) != clean[v]
    if not changed: rec["result"] = "same code"; return
    rec["result"] = "survived"; os.makedirs(W + "/t", exist_ok=True); os.makedirs(W + "/r", exist_ok=True)
    for l in lanes:
        v = l.get("blob") or l["port"]; cmd = ["timeout", "-k", "2", "120", m.hobj[key]] + list(l["args"]) + ["--property=x", "--lane=x", "--seed=%d" % seed, "--replaydir=" + W + "/r", "--out=" + W + "/o.json", "--secs=%g" % (secs * (2 if l["name"] == "compiled" else 0.7))]
        cmd += ["--blob=" + img[v]] if cpu == "i386" else ["--image=" + img[v]]
        if l.get("tmp"): cmd.append("--tmp=" + W + "/t")
        if os.path.exists(W + "/o.json"): os.unlink(W + "/o.json")
        r = sh(cmd, cwd=W + "/t", env=dict(os.environ, VERIF_SCRATCH=W + "/t"))
        if r.returncode:
            rec["result"] = "caught" if r.returncode == 1 else "broken %d" % r.returncode; rec["by"] = prop + "/" + l["name"]
            try: rec["message"] = json.load(open(W + "/o.json"))["message"][:160]
            except Exception: rec["message"] = r.stdout[-300:]
            return


def plan(f):
    c = []
    def lane(prop, want):
        for l in LANES[prop]:
            if l["name"] == want: return l
    order_call = ["C01/model", "C03/model", "C02/model", "C04/model", "C12/calls", "C12/closures", "C30/calls", "C30/closures", "C08/calls", "C08/closures", "C09/calls", "C09/closures", "C05/model", "C10/calls", "C10/closures", "C11/calls", "C11/closures", "C22/histories", "C18/trees", "C17/exceptions", "C17/jumps", "C07/model", "C06/model", "C05/acceptance", "C04/compiled", "C03/compiled", "C05/compiled", "C05/compiled-ms", "C04/model-nocet", "C03/model-notramp", "C01/model-debug", "C13/histories", "C23/unix64", "C23/ms", "C16/schedules"]
    order_pool = ["C13/histories", "C15/faults", "C14/cycles", "C20/search", "C19/forks", "C13/histories-notramp", "C15/faults-notramp", "C14/cycles-notramp", "C16/schedules", "C16/schedules-notramp", "C14/histories", "C03/model", "C12/closures"]
    order_prep = ["C07/model", "C06/model", "C05/acceptance", "C01/model", "C22/histories", "C05/model", "C10/calls", "C10/closures", "C11/calls", "C11/closures", "C04/model", "C08/calls", "C03/model", "C12/closures", "C13/histories", "C01/model-debug", "C16/schedules", "C06/compiled"]
    o = order_pool if re.search("closures|tramp|dlmalloc", f) else order_prep if re.search("prep_cif|raw|types", f) else order_call
    for x in o:
        p, n = x.split("/"); l = lane(p, n); assert l, x; c.append((x, l))
    return c


def report(out, f, rec):
    open(out, "a").write(json.dumps(rec) + "\n"); print(rec.get("result"), rec.get("by", ""), f, rec["line"], rec["what"], "|", rec["old"][:70], "->", rec["new"][:70], "|", rec.get("message", "")[:80].replace("\n", " ")); sys.stdout.flush()


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); only = sys.argv[4:]
    rnd = random.Random(seed); m = M(); cand = {}
    for f in FILES:
        if only and f not in only: continue
        if only and not FILES[f]: FILES[f] = 50
        if not FILES[f]: continue
        t = open("/repo/" + f).read(); s, raw = sites(f, t); cand[f] = (s, raw)
    weights = [(f, FILES[f]) for f in cand if cand[f][0] and FILES[f]]; done = set(); count = 0
    secs = float(os.environ.get("MUTSECS", "3"))
    while count < n:
        f = rnd.choices([x[0] for x in weights], [x[1] for x in weights])[0]; s, raw = cand[f]; i = rnd.randrange(len(s)); line, new, what = s[i]
        if (f, line, new) in done: continue
        done.add((f, line, new)); mut = list(raw); mut[line] = new; open("%s/repo/%s" % (W, f), "w").write("\n".join(mut)); rec = dict(file=f, line=line + 1, old=raw[line].strip(), new=new.strip(), what=what)
        try:
            changed = []
            if port_of(f):
                port_case(m, f, rec, seed + count, secs); count += rec["result"] not in ("same code", "does not compile")
                continue
            for v in ("ship", "notramp"):
                try: cur = m.objs(v)
                except SystemExit: changed = None; break
                if cur != m.orig[v]: changed.append(v)
            if changed is None: rec["result"] = "does not compile"
            elif not changed: rec["result"] = "same code"
            else:
                count += 1; rec["result"] = "survived"; bins = {}
                for x, l in plan(f):
                    v = l.get("variant", "ship"); v = {"step-notramp": "step"}.get(v, v)
                    if l["variant"] == "step-notramp": continue
                    if (l["harness"], v) not in bins:
                        if v not in ("ship", "notramp"):
                            try: m.objs(v)
                            except SystemExit: continue
                        bins[(l["harness"], v)] = m.link(l["harness"], v)
                    b = bins[(l["harness"], v)]
                    if not b: rec["result"] = "does not link"; break
                    os.makedirs(W + "/t", exist_ok=True); cmd = ["timeout", "-k", "2", "120", b] + list(l["args"]) + ["--property=x", "--lane=x", "--seed=%d" % (seed + count), "--replaydir=" + W + "/r", "--out=" + W + "/o.json", "--secs=%g" % (secs * (2 if l["harness"] in ("ccl", "conc") else 1))]
                    if l["harness"] in ("ccl", "prep") or l.get("tmp"): cmd.append("--tmp=" + W + "/t")
                    os.makedirs(W + "/r", exist_ok=True)
                    if os.path.exists(W + "/o.json"): os.unlink(W + "/o.json")
                    r = sh(cmd, env=dict(os.environ, VERIF_SCRATCH=W + "/t"))
                    if r.returncode:
                        rec["result"] = "caught" if r.returncode == 1 else "broken %d" % r.returncode; rec["by"] = x
                        try: rec["message"] = json.load(open(W + "/o.json"))["message"][:160]
                        except Exception: rec["message"] = r.stdout[-300:]
                        break
        finally:
            open("%s/repo/%s" % (W, f), "w").write("\n".join(raw))
            report(out, f, rec)


main()
