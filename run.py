#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough]   decide one property
   run.py --replay <file>                      replay a reported violation
   run.py --setup                              build every harness (optional)"""
import json, os, sys, subprocess, time, glob, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild
from checks import CHECKS, ALL_HARNESSES

ENV = {
    "LANG": "C.UTF-8", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_pml": "ob1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_plm": "isolated", "OMPI_MCA_plm_rsh_agent": "",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "OMPI_MCA_opal_signal": "",
    "ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:abort_on_error=1:verify_asan_link_order=0",
}


def env():
    e = dict(os.environ)
    e.update(ENV)
    return e


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop and k.get("status") == "known"]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    if args and args[0] == "--setup":
        vbuild.build(sorted(set(ALL_HARNESSES)), "std", False, False)
        return 0
    prop = args[0]
    tier = "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
    t0 = time.time()
    chk = CHECKS[prop]
    parts = [p for p in chk["parts"] if tier in p.get("tiers", ("quick", "thorough"))]
    variants = {}
    for p in parts:
        variants.setdefault(p.get("variant", "std"), []).append(p)
    for v, ps in variants.items():
        names = sorted(set(p["exe"] for p in ps))
        vbuild.build(names, v, any(p.get("real") for p in ps) and v == "std")
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="run_%s_" % prop, dir=vbuild.BUILD)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(prop)
    tot = dict(cases_total=0, cases=0, skipped=0, execs=0, pruned=0, visible_ops=0, choice_points=0, sub=0, sub_nontrivial=0,
               multi_schedule_cases=0, capped=0)
    maxdepth = 0
    samples, viols, knownhit, partinfo = [], [], set(), []
    traces = mism = 0
    err = None
    kf = os.path.join(work, "known.tsv")
    with open(kf, "w") as f:
        for k in known:
            f.write("%s\t%s\t%s\n" % (k["case"], k["message"], k["id"]))
    for i, p in enumerate(parts):
        exe = os.path.join(vbuild.BUILD, p.get("variant", "std"), p["exe"])
        out = os.path.join(work, "o%d" % i)
        oc = os.path.join(work, "oc%d" % i)
        budget = p.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
        cmd = [exe, "--tier", tier, "--jobs", str(jobs), "--out", out, "--budget", str(budget), "--known", kf,
               "--timeout", str(p.get("timeout", 120))]
        if p.get("only"):
            cmd += ["--only", p["only"]]
        if p.get("real"):
            cmd += ["--outcomes", oc]
        r = subprocess.run(cmd, env=env(), cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        got = 0
        pt = {}
        for fn in sorted(glob.glob(out + ".[0-9]*")):
            try:
                d = json.load(open(fn))
            except Exception as x:
                err = "unreadable result %s: %s" % (fn, x)
                continue
            got += 1
            for k in tot:
                if k == "cases_total":
                    pt[k] = d[k]
                else:
                    pt[k] = pt.get(k, 0) + d[k]
            maxdepth = max(maxdepth, d["max_depth"])
            samples += d["samples"][:2]
            for v in d["violations"]:
                v["exe"] = p["exe"]
                v["variant"] = p.get("variant", "std")
                viols.append(v)
            knownhit |= set(d["known"])
        if r.returncode or got != jobs:
            err = "harness %s failed (rc %d, %d of %d workers reported): %s" % (p["exe"], r.returncode, got, jobs, r.stdout[-1500:].decode("utf8", "replace"))
        for k in tot:
            tot[k] += pt.get(k, 0)
        partinfo.append(dict(exe=p["exe"], cases=pt.get("cases"), executions=pt.get("execs"), only=p.get("only")))
        # replay outcomes against the real MPI / GA libraries
        if p.get("real") and not viols:
            ocs = {}
            for fn in glob.glob(oc + ".[0-9]*"):
                for l in open(fn):
                    a, b = l.rstrip("\n").split("\t")
                    ocs.setdefault(strip_modes(a), set()).add(b)
            for np_ in p["real"]:
                ro = os.path.join(work, "real%d_%d" % (i, np_))
                b = p.get("real_budget", 12) * (1 if tier == "quick" else 8)
                c2 = ["mpiexec", "-n", str(np_), exe + ".real", "--tier", tier, "--budget", str(b), "--stride", str(p.get("stride", 1)), "--out", ro]
                if p.get("only"):
                    c2 += ["--only", p["only"]]
                died = []
                for attempt in (0, 1):
                    try:
                        rc = subprocess.run(c2, env=env(), cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=b + 60).returncode
                    except subprocess.TimeoutExpired:
                        rc = 0
                    if rc == 0 or any("REALFAIL" in open(fn, errors="replace").read() for fn in glob.glob(ro + ".*")):
                        break
                    cur = [open(fn, errors="replace").read() for fn in sorted(glob.glob(ro + "_cur.*"))]
                    died.append(max(cur, default="") if not any(x.startswith("done") for x in cur) else "")
                # ended by the libraries (or a signal) twice in the middle of a case: not an accident
                if len(died) == 2 and all("\t" in x for x in died):
                    viols.append(dict(case=died[1].split("\t")[0], msg="under the real MPI/GA libraries: the program is aborted {at: %s}" % died[1].split("\t")[1], sched="", exe=p["exe"], variant="std", real=True))
                for fn in glob.glob(ro + ".*"):
                    for l in open(fn, errors="replace"):
                        f = l.rstrip("\n").split("\t")
                        if f[0] == "REALFAIL":
                            if not any(k["message"] in f[2] for k in known):
                                viols.append(dict(case=f[1], msg="under the real MPI/GA libraries: " + f[2], sched="", exe=p["exe"], variant="std", real=True))
                        elif len(f) == 2:
                            s = ocs.get(strip_modes(f[0]))
                            if s is None:
                                continue
                            if f[1] in s:
                                traces += 1
                            else:
                                mism += 1
    if err and not viols:
        sys.stderr.write(err + "\n")
        print("CHECK-ERROR property=%s %s" % (prop, err))
        return 3
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    level = chk.get("level", "model_checking")
    exhaustive = tot["capped"] == 0 and tot["skipped"] == 0 and not viols
    cov = dict(exhaustive=bool(exhaustive), samples=samples[:8], parts=partinfo, build_s=round(tb, 1))
    cov.update(bounded_cases=tot["cases_total"], cases_run=tot["cases"], executions=tot["execs"], sleep_set_pruned=tot["pruned"],
               max_choice_depth=maxdepth, cases_with_several_schedules=tot["multi_schedule_cases"],
               sub_cases=tot["sub"], sub_cases_nontrivial=tot["sub_nontrivial"])
    if level == "model_checking":
        cov.update(states=tot["choice_points"] + tot["execs"], transitions=tot["visible_ops"] + tot["sub"],
                   traces_validated_against_impl=traces, real_library_mismatches=mism)
    else:
        ev = tot["execs"] + tot["sub"]
        nt = tot["sub_nontrivial"] + (tot["cases"] if not tot["sub"] else 0)
        cov.update(evaluations=ev, distinct_nontrivial=nt, rule=chk.get("rule", ""), traces_validated_against_impl=traces)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viols),
              assumptions=chk.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if viols:
        rd = os.path.join(vbuild.BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(viols[:3]):
            rp = os.path.join(rd, "%s-%d.json" % (prop, n))
            json.dump(dict(property=prop, **v), open(rp, "w"), indent=1)
            print("case: %s\nschedule: %s\nwhat: %s" % (v["case"], v["sched"] or "(default)", v["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s tier=%s cases=%d executions=%d sub=%d transitions=%d real-traces=%d mismatches=%d exhaustive=%s build=%.0fs wall=%.0fs" %
          (prop, tier, tot["cases"], tot["execs"], tot["sub"], tot["visible_ops"], traces, mism, exhaustive, tb, time.time() - t0))
    return 0


def strip_modes(c):
    return " ".join(t for t in c.split() if not t.startswith(("ex=", "sm=", "pm=")))


def replay(path):
    v = json.load(open(path))
    vbuild.build([v["exe"]], v.get("variant", "std"))
    exe = os.path.join(vbuild.BUILD, v.get("variant", "std"), v["exe"])
    cmd = [exe, "--replay", v["case"], "--sched", v["sched"], "-v"]
    print(" ".join("'%s'" % x for x in cmd))
    return subprocess.run(cmd, env=env()).returncode


if __name__ == "__main__":
    sys.exit(main())
