#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay SUITE CASE] [--tape FILE] [--scale X] [--gscale X]"""
import os, sys, time, tempfile, shutil, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver as D
from registry import REG


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    replay = None
    if "--replay" in a:
        i = a.index("--replay")
        replay = (a[i + 1], int(a[i + 2]))
    tape = os.path.abspath(a[a.index("--tape") + 1]) if "--tape" in a else None
    mult = float(a[a.index("--scale") + 1]) if "--scale" in a else 1.0
    gmult = float(a[a.index("--gscale") + 1]) if "--gscale" in a else 1.0
    only_mode = a[a.index("--mode") + 1] if "--mode" in a else None
    if only_mode and only_mode not in [r["mode"] for r in REG[prop]["runs"]]:
        sys.exit("no such mode: " + only_mode)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    spec = REG[prop]
    known = D.load_known(prop)
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    os.chmod(scratch, 0o755)
    bins, runs = [], []
    try:
        rspecs = spec["runs"]
        seen = {}
        for i, rs in enumerate(rspecs):
            if only_mode and rs["mode"] != only_mode:
                continue
            scale = rs[tier] * mult
            if not scale and not replay:
                continue
            bk = repr([rs[k] for k in ("sources", "mode")] + [rs.get("groups"), rs.get("cflags"), rs.get("per_file")])
            if bk not in seen:
                try:
                    seen[bk] = D.build("%s-%d" % (prop, i), rs["sources"], rs.get("groups", []), rs.get("libs", []), rs["mode"],
                                       rs.get("cflags", ()), rs.get("per_file"))
                except D.BuildError as e:
                    sys.stderr.write(str(e) + "\n")
                    return 2
                bins.append(seen[bk])
            b = seen[bk]
            run = D.Run(prop, b, rs["mode"], seed, scale, scratch, rs.get("tag", rs["mode"]), workers=rs.get("workers", D.JOBS),
                        cpu=rs.get("cpu", 60), timeout=rs.get("timeout", 820 if tier == "quick" else 7200), args=rs.get("args", ()),
                        guided=rs.get("guided_" + tier, 0) * mult * gmult)
            if replay:
                c = run.cmd(0, os.path.join(scratch, "st"), os.path.join(scratch, "cur"), None, replay, tape)
                rc = subprocess.run(c, env=D.env_for(), cwd=scratch).returncode
                print("replay mode=%s rc=%s %s" % (rs["mode"], rc, D.read_cur(os.path.join(scratch, "cur"))[3]))
                continue
            runs.append(run)
            run.run(known)
            # stop early: a violation in the first monitor already decides
            if any(not D.key_known(known, v["key"]) for v in run.violations):
                break
        if replay:
            return 0
        return D.finish(prop, tier, seed, spec.get("level", "exploration"), runs, known, t0, spec.get("assumptions", ()))
    finally:
        for b in bins:
            if os.path.exists(b):
                os.unlink(b)
        shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
