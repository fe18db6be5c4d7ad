#!/usr/bin/env python3
"""Runs one property check:  check.py <ID>
exit 0: held; exit 1: violation (line VIOLATION property=ID replay=...); exit 2: analysis broken."""
import os, sys, time, json, subprocess, tempfile, shutil, importlib, traceback, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "engine"))
sys.path.insert(0, os.path.join(V, "checks"))
sys.dont_write_bytecode = True


def extract(out, defs=()):
    tool = os.path.join(V, "build", "extract")
    src = os.path.join(V, "tool", "extract.cpp")
    if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(tool), exist_ok=True)
        subprocess.run(["bash", os.path.join(V, "tool", "build.sh"), tool], check=True)
    cmd = [tool, REPO, out, os.path.join(V, "tool", "driver.cpp"), "--", "-std=c++17", "-fopenmp", "-I" + REPO + "/printemps",
           "-I" + os.path.join(V, "tool", "inc"), "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-O0", "-w"] + ["-D" + d for d in defs]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.join(V, "tool"))
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-4000:])
        raise RuntimeError("front end failed on /repo (exit %d)" % p.returncode)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        import common
        ir = os.path.join(tmp, "ir.jsonl")
        pre = os.environ.get("VERIF_IR")
        if pre:
            ir = pre
        else:
            extract(ir)
        ctx = common.Ctx(ir, V, REPO, pid, tmp, extract)
        mod = importlib.import_module("c_" + pid.lower())
        try:
            mod.run(ctx)
            ctx.finish_selftests()
        except common.Broken as e:
            # an anchor is gone: what was decided before it still stands
            ctx.undecided.append(str(e))
        for u in ctx.undecided:
            print("UNDECIDED property=%s %s" % (pid, u))
        if ctx.obligations == 0:
            raise RuntimeError("nothing could be decided")
        cov = ctx.coverage()
        known = common.load_known(V)
        new, old = [], []
        for v in ctx.violations:
            (old if (pid, v["key"]) in known else new).append(v)
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (pid, v["msg"]))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
              "violations": len(new), "assumptions": common.ASSUME}
        evd = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
        os.makedirs(evd, exist_ok=True)
        path = os.path.join(evd, pid + ".json")
        rp = os.path.join(evd, pid + ".violations.txt")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        for k, n in sorted(ctx.counts.items()):
            print("  %-52s %d" % (k, n))
        print("%s: %d obligations, %d violation(s), %.1f s" % (pid, ctx.obligations, len(new), time.time() - t0))
        if new:
            with open(rp, "w") as f:
                for v in new:
                    f.write("%s\n  rule: %s\n  at: %s\n  key: %s\n" % (v["msg"], v["rule"], v["at"], v["key"]))
            for v in new[:20]:
                print("  [%s] %s: %s" % (v["rule"], v["at"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        r = main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: %s" % (sys.argv[1:], e))
        r = 2
    sys.exit(r)
