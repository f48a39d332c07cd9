#!/usr/bin/env python3
"""python3 check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--lane NAME] [--secs N]

Builds the library from /repo's working tree (see lib/build.py), runs the property's lanes (generated-input search by
the harnesses in harness/), writes evidence/PROPERTY.json and reports.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import json, os, re, subprocess, sys, time, shutil, hashlib
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")
import build
from lanes import LANES, META


def known_findings(prop):
    out = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) lane=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier, replay, only, secs, keep = os.environ.get("VERIF_TIER", "quick"), None, None, None, False
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--replay": replay = os.path.abspath(a.pop(0))
        elif x == "--lane": only = a.pop(0)
        elif x == "--secs": secs = float(a.pop(0))
        elif x == "--keep": keep = True
        else: sys.exit("unknown argument " + x)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bdir = "%s/build/%s" % (VERIF, prop)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir + "/tmp")
    rdir = VERIF + "/evidence/replays"
    os.makedirs(rdir, exist_ok=True)
    B = build.Builder(bdir)
    lanes = [l for l in LANES[prop] if tier == "thorough" or not l.get("thorough_only")]
    if replay:
        rl = [l.split()[1] for l in open(replay) if l.startswith("lane ")]
        lanes = [l for l in LANES[prop] if l["name"] == rl[0]]
    if only:
        lanes = [l for l in lanes if l["name"] in only.split(",")]
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": "detect_leaks=0:replace_intrin=0:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:use_sigaltstack=0:allocator_may_return_null=1:halt_on_error=1:exitcode=66",
                "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=%s/config/tsan.supp" % VERIF})
    for k in ("LIBFFI_TMPDIR",):
        env.pop(k, None)
    results, violations, notes = [], [], []
    # build everything first, in parallel
    from concurrent.futures import ThreadPoolExecutor
    need = {}
    for l in lanes:
        key = (l["harness"], l.get("variant", "ship"), tuple(l.get("link", ())), tuple(l.get("src", ("lib/stubs.S",))), tuple(l.get("flags", ())))
        need[key] = None
    for v in sorted({k[1] for k in need}):
        B.lib(v)
    def mk(k):
        h, v, link, src, flags = k
        o = "%s/%s-%s-%s" % (bdir, h, v, hashlib.md5(repr(k).encode()).hexdigest()[:4])
        return B.harness(h, v, extra_src=src, link=link, flags=list(flags) or None, out=o)
    with ThreadPoolExecutor(8) as ex:
        for k, o in zip(need, ex.map(mk, list(need))):
            need[k] = o
    blobs = {b: B.blob(b) for b in sorted({l["blob"] for l in lanes if l.get("blob")})}
    images = {b: B.port(*b) for b in sorted({l["port"] for l in lanes if l.get("port")})}
    total = secs or META[prop].get("secs", {}).get(tier) or (40 if tier == "quick" else 720)
    wsum = sum(l.get("weight", 1) for l in lanes)
    for l in lanes:
        key = (l["harness"], l.get("variant", "ship"), tuple(l.get("link", ())), tuple(l.get("src", ("lib/stubs.S",))), tuple(l.get("flags", ())))
        out = "%s/%s.json" % (bdir, l["name"])
        share = total * l.get("weight", 1) / wsum
        cmd = [need[key]] + list(l.get("args", ())) + ["--property=" + prop, "--lane=" + l["name"], "--seed=%d" % seed, "--replaydir=" + rdir, "--out=" + out]
        if l["harness"] in ("ccl", "prep") or l.get("tmp"): cmd.append("--tmp=" + bdir + "/tmp")
        if l.get("port"): cmd.append("--image=" + images[l["port"]])
        if l.get("blob"): cmd.append("--blob=" + blobs[l["blob"]])
        if tier == "thorough": cmd += list(l.get("thorough_args", ()))
        cmd.append("--replay=" + replay if replay else "--secs=%.1f" % share)
        e2 = dict(env); e2.update(l.get("env", {})); e2["VERIF_SCRATCH"] = bdir + "/tmp"
        p = subprocess.run(cmd, env=e2, cwd=bdir + "/tmp", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if replay:
            print(p.stdout)
            sys.exit(1 if p.returncode == 1 else 0 if p.returncode == 0 else 2)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("lane %s ended with status %d\n%s" % (l["name"], p.returncode, p.stdout[-4000:]))
            sys.exit(2)
        d = json.load(open(out))
        if p.stdout.strip() and (d["violations"] or d["unreproduced"]): print(p.stdout[-3000:])
        results.append(d)
        notes += ["%s: %s" % (l["name"], n) for n in d["notes"]]
        print("lane %-22s %8d cases, %8d non-trivial, %8d distinct, %6.1f s%s" % (l["name"], d["evaluations"], d["nontrivial"], d["distinct_nontrivial"], d["wall_s"], "  FAILED" if d["violations"] else ""))
        sys.stdout.flush()
        if d["violations"]:
            kf = [m for (ln, m) in known_findings(prop) if ln in (l["name"], "*") and m in d["message"]]
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (prop, d["message"]))
            else:
                violations.append((d["message"], d["replay"], d.get("description", "")))
                break
    if not violations:
        for l in lanes:   # floors: a lane that explored nothing is a broken check
            d = [r for r in results if r["lane"] == l["name"]][0]
            if d["evaluations"] < l.get("floor", 10) or d["distinct_nontrivial"] < 1:
                print("lane %s explored almost nothing: %d cases" % (l["name"], d["evaluations"])); sys.exit(2)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": META[prop].get("level", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": " || ".join(sorted({r["rule"] for r in results})),
            "samples": [{"lane": r["lane"], "cases": r["samples"][:4]} for r in results if r["samples"]],
            "lanes": {r["lane"]: {k: r[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "discards", "excluded", "wall_s", "labels", "unreproduced")} for r in results},
            "notes": notes,
        },
        "assumptions": META[prop].get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    if not keep and not violations: shutil.rmtree(bdir, ignore_errors=True)
    for m, r, d in violations:
        print("%s\n%s" % (m, d))
        print("VIOLATION property=%s replay=%s" % (prop, r))
    sys.exit(1 if violations else 0)


main()
