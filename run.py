#!/usr/bin/env python3
"""Run one property check:  run.py <ID> [quick|thorough]
   Replay a violation:      run.py replay <file>
   Build everything:        run.py setup

Builds the check's binary against /repo's working tree in the flavors the
check uses, runs it, minimizes what fails, writes evidence/<ID>.json, and
prints VIOLATION / KNOWN-FINDING lines. Exit 0: held; 1: violated; 2: error.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
TARGET = "x86_64-unknown-linux-gnu"

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


class Error(Exception):
    pass


# ------------------------------------------------------------------ build

def repo_hash():
    """Hash of everything the build reads from /repo."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs")]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def flavor(name):
    """cargo toolchain, arguments, RUSTFLAGS, extra environment, artifact dir"""
    base = "--cap-lints warn -Awarnings"
    if name in ("checked", "release"):
        return [], ["--profile", name], base, {}, name
    if name == "asan":
        return (["+nightly"], ["--profile", "checked", "--target", TARGET],
                base + " -Zsanitizer=address", {}, TARGET + "/checked")
    if name == "nostd":
        return [], ["--profile", "checked", "--no-default-features", "--features", "ptr"], base, {}, "checked"
    if name == "noptr":
        return [], ["--profile", "release", "--no-default-features", "--features", "std_cfg"], base, {}, "release"
    raise Error("unknown flavor " + name)


def cargo_env(flags, extra=None):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_BUILD_RUSTFLAGS", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", RUSTFLAGS=flags, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.update(extra or {})
    return e


def refresh(tdir):
    """Never trust file times: if /repo changed since the last build in this
    directory, drop what was built from it."""
    stamp = os.path.join(tdir, "repo.hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", "indexing-*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(tdir, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)


def build(name, bins):
    tool, args, flags, extra, art = flavor(name)
    tdir = os.path.join(BUILD, name)
    refresh(tdir)
    cmd = ["cargo"] + tool + ["build", "--offline", "--locked", "--target-dir", tdir] + args
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(flags, extra), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Error("build of %s (%s) failed:\n%s" % (bins, name, p.stdout[-6000:]))
    return os.path.join(tdir, art)


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0"
    e["RUST_BACKTRACE"] = "0"
    return e


# ------------------------------------------------------------------ miri

def miri_cmd(bin_, args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--target-dir", os.path.join(BUILD, "miri"),
            "--bin", bin_, "--"] + args


def miri_env():
    # The interpreter checks every access for bounds, liveness, alignment and
    # initialization. Aliasing models are experimental and out of scope.
    return cargo_env("--cap-lints warn -Awarnings",
                     {"MIRIFLAGS": "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"})


def miri_build(bin_):
    refresh(os.path.join(BUILD, "miri"))
    p = subprocess.run(miri_cmd(bin_, ["list"]), cwd=HARNESS, env=miri_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Error("miri build failed:\n" + p.stdout[-4000:])


def miri_exec(bin_, cases, jobs, timeout):
    """Interpret the emitted cases in `jobs` processes. -> (n done, failure or None)"""
    res = [None] * jobs

    def go(k):
        try:
            p = subprocess.run(miri_cmd(bin_, ["exec", cases, "--from", str(k), "--step", str(jobs)]), cwd=HARNESS,
                               env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=timeout)
            res[k] = (p.returncode, p.stdout, p.stderr)
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b""
            res[k] = (None, o.decode("utf8", "replace") if isinstance(o, bytes) else o, "")
    ts = [threading.Thread(target=go, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    done, fail = 0, None
    for rc, out, err in res:
        lines = [l for l in out.splitlines() if l.startswith("CASE ")]
        if rc == 0:
            done += len(lines)
            continue
        done += max(0, len(lines) - 1)
        if rc is None:      # out of time: fewer cases interpreted, no verdict
            continue
        failed = [l for l in out.splitlines() if l.startswith("FAILED ")]
        if lines and (failed or "Undefined Behavior" in err):
            f = json.loads(lines[-1][5:])
            f["message"] = failed[-1][7:] if failed else "Miri: " + next(
                (l for l in err.splitlines() if "Undefined Behavior" in l), "undefined behavior")
            fail = fail or f
        elif lines and "unsupported operation" not in err and "error" in err:
            raise Error("miri failed:\n" + err[-3000:])
        elif not lines:
            raise Error("miri failed:\n" + err[-3000:])
    return done, fail


# ------------------------------------------------------------------ checks

def fatal(rc, err):
    """How a run crashed, if it did so because of the code (not for want of memory)."""
    if "memory allocation of" in err or "out of memory" in err:
        return None
    if "ERROR: AddressSanitizer" in err:
        return "AddressSanitizer"
    return {-4: "SIGILL", -5: "SIGTRAP", -6: "SIGABRT", -7: "SIGBUS", -8: "SIGFPE", -11: "SIGSEGV"}.get(rc)


def run_flavor(cid, chk, fl, scale, seed, thorough, res, skip_exh):
    """Run the binary of a check in one flavor. Fills `res`."""
    art = build(fl, [chk["bin"]])
    binp = os.path.join(art, chk["bin"])
    outf = os.path.join(OUT, "%s-%s.json" % (cid, fl))
    if os.path.exists(outf):
        os.unlink(outf)
    opts = ["--seed", str(seed), "--scale", str(scale)]
    if thorough:
        opts.append("--thorough")
    if fl != "asan":
        opts += ["--mem-mb", "12000"]
    cmd = [binp, "run", "--out", outf] + opts + (["--skip-exhaustive"] if skip_exh else [])
    limit = 3600 * 3 if thorough else 420
    renv = run_env()
    if fl == "asan":
        renv["VH_NO_STACK"] = "1"  # instrumented frames say nothing about stack use
    try:
        p = subprocess.run(cmd, env=renv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=limit, cwd=OUT)
    except subprocess.TimeoutExpired:
        raise Error("%s (%s) did not finish within %d s" % (cid, fl, limit))
    if p.returncode == 3:
        raise Error("harness failure: " + p.stderr[-3000:])
    if p.returncode == 0 and os.path.exists(outf):
        res["groups"] = json.load(open(outf))
        for g in res["groups"]:
            if g["failure"]:
                res["failures"].append(dict(g["failure"], flavor=fl))
        return
    # The process died: find the group and shard, then shrink in forked children.
    log("%s (%s) died with status %s; isolating" % (cid, fl, p.returncode))
    detail = [l for l in p.stderr.splitlines() if "ERROR: AddressSanitizer" in l or "SUMMARY" in l]
    groups = subprocess.run([binp, "list"], env=run_env(), stdout=subprocess.PIPE, text=True).stdout.split()
    jobs = [(g, s) for g in groups for s in range(8)]
    found = []
    lock = threading.Lock()

    def one():
        while True:
            with lock:
                if not jobs or found:
                    return
                g, s = jobs.pop(0)
            base = [binp, "shard", "--group", g, "--shard", str(s)] + opts
            try:
                q = subprocess.run(base, env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   errors="replace", timeout=300 if not thorough else 3600, cwd=OUT)
                if q.returncode == 0:
                    f = json.loads(q.stdout)
                    if f:
                        with lock:
                            found.append(f)
                    continue
            except subprocess.TimeoutExpired:
                pass
            try:
                q = subprocess.run(base + ["--fork"], env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", timeout=400 if not thorough else 7200, cwd=OUT)
            except subprocess.TimeoutExpired:
                continue
            if q.returncode == 0 and q.stdout.strip():
                f = json.loads(q.stdout)
                if f:
                    with lock:
                        found.append(f)
    ts = [threading.Thread(target=one) for _ in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if not found:
        # not one case alone: damage that builds up, or threads that disturb each other
        why, err = fatal(p.returncode, p.stderr), p.stderr
        for _ in range(3):
            if why and not found:
                try:
                    q = subprocess.run(cmd, env=renv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                       errors="replace", timeout=limit, cwd=OUT)
                except subprocess.TimeoutExpired:
                    break
                if fatal(q.returncode, q.stderr):
                    found.append({"group": "run", "case": {"run": cmd[4:]}, "message": "the whole run crashes (%s), though no case alone does" % why})
        if not found:
            raise Error("%s (%s) died with status %s but no single case reproduces it: %s %s"
                        % (cid, fl, p.returncode, detail, err[-1500:]))
    f = found[0]
    if detail:
        f["message"] += " (" + detail[0].split("==")[-1][:160] + ")"
    res["failures"].append(dict(f, flavor=fl))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def write_evidence(cid, tier, seed, chk, cov, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", cid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def check(cid, tier):
    chk = CHECKS[cid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    os.makedirs(OUT, exist_ok=True)
    plan = chk["thorough" if thorough else "quick"]
    failures, per, errors = [], [], []
    if chk.get("programs"):
        sys.path.insert(0, os.path.join(VERIF, "programs"))
        import programs
        failures, per = programs.run(cid, chk, plan, seed, thorough, log, sys.modules[__name__])
    else:
        # build all flavors at the same time; run them one after another
        built = {}

        def b(fl):
            try:
                build(fl, [chk["bin"]])
                built[fl] = True
            except Exception as e:
                built[fl] = e
        flavors = [f for f, _ in plan["flavors"]]
        ts = [threading.Thread(target=b, args=(f,)) for f in flavors]
        if plan.get("miri"):
            def mb():
                try:
                    miri_build(chk["bin"])
                    built["miri"] = True
                except Exception as e:
                    built["miri"] = e
            ts.append(threading.Thread(target=mb))
        [t.start() for t in ts]
        [t.join() for t in ts]
        log("built", ", ".join(built))
        for fl, scale in plan["flavors"]:
            if failures:
                break
            if built[fl] is not True:
                errors.append(str(built[fl]))
                continue
            res = {"groups": [], "failures": failures}
            try:
                run_flavor(cid, chk, fl, scale, seed, thorough, res, skip_exh=(fl == "asan" and not thorough and chk.get("asan_skip_exh")))
            except Error as e:
                errors.append(str(e))
            per.append((fl, res["groups"]))
            log("ran", fl, "failures:", len(failures))
        if plan.get("miri") and not failures and not errors:
            if built["miri"] is not True:
                log("Miri is not usable here, its part is skipped:", built["miri"])
            else:
                cases = os.path.join(OUT, "%s-miri.jsonl" % cid)
                art = os.path.join(BUILD, flavors[0], flavor(flavors[0])[4], chk["bin"])
                skip = [x for g in chk.get("miri_skip", []) for x in ("--skip", g)]
                subprocess.run([art, "emit", "--seed", str(seed), "--n", str(plan["miri"]), "--out", cases] + skip, check=True,
                               env=run_env())
                try:
                    n, f = miri_exec(chk["bin"], cases, 8, plan.get("miri_s", 60))
                    if f:
                        failures.append(dict(f, flavor="miri"))
                    per.append(("miri", [{"group": "interpreted", "rule": "generated cases executed by Miri", "exhaustive": False,
                                          "evaluations": n, "nontrivial": 0, "distinct_nontrivial": 0, "labels": {},
                                          "samples": [], "failure": None}]))
                except Error as e:
                    log("Miri is not usable here, its part is skipped:", e)
                log("ran miri")
    # known findings: named probes in the binaries
    kf = known_findings()
    listed = {k["probe"]: k for k in kf["known"] if k["property"] == cid}
    reported = []
    real = []
    for f in failures:
        probe = f["case"].get("probe") if isinstance(f.get("case"), dict) else None
        if probe and probe in listed:
            reported.append(probe)
        else:
            real.append(f)
    for fl, groups in per:
        for g in groups:
            for lab in g.get("labels", {}):
                if lab.startswith("known:"):
                    probe = lab[6:]
                    if probe not in reported:
                        reported.append(probe)
    for probe in list(reported):
        if probe not in listed:
            real.append({"group": "probe", "case": {"probe": probe}, "flavor": plan["flavors"][0][0],
                         "message": "defect probe fails and is not listed: " + probe})
            reported.remove(probe)
    for probe in sorted(set(reported)):
        print("KNOWN-FINDING: property=%s %s" % (cid, listed[probe]["what"]))
    # evidence
    ev, dn, samples, groups_out, labels = 0, 0, [], [], {}
    for fl, groups in per:
        for g in groups:
            ev += g["evaluations"]
            groups_out.append({"build": fl, "group": g["group"], "evaluations": g["evaluations"],
                               "distinct_nontrivial": g["distinct_nontrivial"], "rule": g["rule"],
                               "exhaustive": g["exhaustive"], "classes": {k: v for k, v in g["labels"].items() if not k.startswith("known:")}})
    # the same case in several builds is one distinct case: take the largest build per group
    best = {}
    for fl, groups in per:
        for g in groups:
            if g["distinct_nontrivial"] > best.get(g["group"], {"distinct_nontrivial": -1})["distinct_nontrivial"]:
                best[g["group"]] = g
    for g in best.values():
        dn += g["distinct_nontrivial"]
        for s in g["samples"][:2]:
            samples.append({"group": g["group"], "case": s})
    if not samples:
        samples = [{"group": f["group"], "case": json.dumps(f["case"])[:600]} for f in failures[:3]] or ["none: the run did not get to generate cases"]
    cov = {"evaluations": ev, "distinct_nontrivial": dn,
           "rule": "Each group states how its cases are made and when one is non-trivial: "
                   + "; ".join("%s: %s" % (g["group"], g["rule"]) for g in best.values())[:6000],
           "samples": samples[:12], "groups": groups_out}
    write_evidence(cid, tier, seed, chk, cov, len(real), chk.get("assumptions", []) + COMMON)
    if real:
        f = real[0]
        path = os.path.join(OUT, "%s-replay.json" % cid)
        with open(path, "w") as fh:
            json.dump({"property": cid, "flavor": f.get("flavor"), "bin": chk["bin"], "seed": seed, "group": f["group"],
                       "case": f["case"], "message": f["message"]}, fh, indent=1)
        print("%s: %s" % (f["group"], f["message"]))
        print("case:", json.dumps(f["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors), file=sys.stderr)
        return 2
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (cid, ev, dn, time.time() - T0))
    return 0


COMMON = [
    "Generated-input search: a violation outside the explored cases is not excluded.",
    "The oracle models in /verif/harness, proptest, rustc and (where used) AddressSanitizer/Miri are trusted.",
]


def replay(path):
    r = json.load(open(path))
    r["path"] = path
    chk = CHECKS[r["property"]]
    os.makedirs(OUT, exist_ok=True)
    if chk.get("programs"):
        sys.path.insert(0, os.path.join(VERIF, "programs"))
        import programs
        return programs.replay(r, chk, log, sys.modules[__name__])
    tmp = os.path.join(OUT, "replay-case.json")
    with open(tmp, "w") as f:
        json.dump({"group": r["group"], "case": r["case"], "message": ""}, f)
    if r["flavor"] == "miri":
        cases = os.path.join(OUT, "replay-case.jsonl")
        with open(cases, "w") as f:
            f.write(json.dumps({"group": r["group"], "case": r["case"], "message": ""}) + "\n")
        miri_build(r["bin"])
        _, f = miri_exec(r["bin"], cases, 1, 600)
        ok, msg = f is None, f and f["message"]
    else:
        binp = os.path.join(build(r["flavor"], [r["bin"]]), r["bin"])
        if r["group"] == "run":
            for _ in range(4):
                p = subprocess.run([binp, "run", "--out", tmp] + r["case"]["run"], env=run_env(), stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, text=True, errors="replace")
                if p.returncode:
                    print("REPLAY: the run died with status %s\nVIOLATION property=%s replay=%s" % (p.returncode, r["property"], path))
                    return 1
            print("REPLAY: the run ends")
            return 0
        p = subprocess.run([binp, "replay", tmp, "--fork"], env=run_env(), stdout=subprocess.PIPE, text=True, errors="replace")
        ok, msg = p.returncode == 0, p.stdout.strip()
    if ok:
        print("REPLAY: the case passes")
        return 0
    print("REPLAY:", msg)
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def setup():
    os.makedirs(OUT, exist_ok=True)
    bins = {}
    for cid, c in CHECKS.items():
        if c.get("programs"):
            sys.path.insert(0, os.path.join(VERIF, "programs"))
            import programs
            programs.Lib(sys.modules[__name__])
            continue
        for fl, _ in c["quick"]["flavors"]:
            bins.setdefault(fl, []).append(c["bin"])
    rc = 0
    ts = []
    errs = []

    def b(fl):
        try:
            build(fl, bins[fl])
            log("built", fl)
        except Exception as e:
            errs.append(str(e))
    for fl in bins:
        ts.append(threading.Thread(target=b, args=(fl,)))
    [t.start() for t in ts]
    [t.join() for t in ts]
    for cid, c in CHECKS.items():
        if not c.get("programs") and c["quick"].get("miri"):
            try:
                miri_build(c["bin"])
            except Exception as e:
                errs.append(str(e))
    for e in errs:
        print(e, file=sys.stderr)
        rc = 1
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "setup":
            return setup()
        if a[0] == "replay":
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except Error as e:
        print("ERROR:", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
