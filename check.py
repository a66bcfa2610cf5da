#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough] [--entry SUBSTR] [--keep]

1. emits LLVM IR of /repo's current source together with the property's harness entries,
2. runs the symbolic engine (llsym) on every entry, SMT solvers give the verdicts,
3. replays counterexamples and path witnesses against a native build of the same source,
4. writes evidence/<property>.json and prints the verdict.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
HARN = os.path.join(VERIF, "harness")
IRFLAGS = "--emit=llvm-ir -Zshare-generics=no -C no-vectorize-loops -C no-vectorize-slp -Awarnings"


def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e


def die(msg, code=2):
    print(msg)
    sys.stdout.flush()
    sys.exit(code)


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), HARN]
    for r in roots:
        if os.path.isfile(r):
            files = [r]
        else:
            files = []
            for d, ds, fs in os.walk(r):
                ds[:] = sorted(x for x in ds if x != "target")
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def cargo(args, target, rustflags, cwd=HARN, timeout=800):
    e = env(CARGO_TARGET_DIR=target)
    if rustflags is not None:
        e["RUSTFLAGS"] = rustflags
        e["RUSTC_BOOTSTRAP"] = "1"
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_engine():
    with Lock("engine"):
        h = hashlib.sha256()
        src = os.path.join(VERIF, "llsym", "src")
        for f in sorted(os.listdir(src)):
            h.update(open(os.path.join(src, f), "rb").read())
        stamp = os.path.join(BUILD, "engine.stamp")
        exe = os.path.join(BUILD, "engine", "release", "llsym")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return exe
        tgt = os.path.join(BUILD, "engine")
        cargo(["clean", "--offline", "--release", "-p", "llsym"], tgt, None, cwd=os.path.join(VERIF, "llsym"))
        rc, out = cargo(["build", "--release", "--offline"], tgt, None, cwd=os.path.join(VERIF, "llsym"))
        if rc != 0:
            die("ERROR: the engine does not build\n" + out[-3000:])
        open(stamp, "w").write(h.hexdigest())
        return exe


def stale(target, stamp, h):
    """drop artefacts of the crates under test unless they were built from exactly this source"""
    if os.path.exists(stamp) and open(stamp).read() == h:
        return False
    if os.path.exists(stamp):
        os.unlink(stamp)
    for prof in ("ir", "native", "nativerel"):
        for pk in ("renplex", "harness"):
            if os.path.isdir(os.path.join(target, prof)):
                cargo(["clean", "--offline", "--profile", prof, "-p", pk], target, None)
        deps = os.path.join(target, prof, "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if re.match(r"(lib)?(renplex|harness|replay)-", f):
                    os.unlink(os.path.join(deps, f))
    return True


def build_ir():
    with Lock("ir"):
        target = os.path.join(BUILD, "ir")
        stamp = os.path.join(BUILD, "ir.stamp")
        h = tree_hash("ir" + IRFLAGS)
        deps = os.path.join(target, "ir", "deps")
        if stale(target, stamp, h):
            rc, out = cargo(["build", "--lib", "--profile", "ir", "--offline"], target, IRFLAGS)
            if rc != 0:
                die("ERROR: the harness does not compile against /repo\n" + out[-4000:])
            open(stamp, "w").write(h)
        lls = {}
        for f in os.listdir(deps):
            m = re.match(r"(renplex|harness)-[0-9a-f]+\.ll$", f)
            if m:
                if m.group(1) in lls:
                    os.unlink(stamp)
                    die("ERROR: ambiguous IR files")
                lls[m.group(1)] = os.path.join(deps, f)
        if len(lls) != 2:
            os.unlink(stamp)
            die("ERROR: IR files missing")
        # private copies: a concurrent check must not see them change
        out = os.path.join(BUILD, "irs-" + h[:16])
        os.makedirs(out, exist_ok=True)
        res = []
        for k in ("harness", "renplex"):
            dst = os.path.join(out, k + ".ll")
            if not os.path.exists(dst):
                shutil.copyfile(lls[k], dst + ".tmp")
                os.rename(dst + ".tmp", dst)
            res.append(dst)
        # growing a vector is generic but never inlined, so an instance may live in a dependency only
        dst = os.path.join(out, "grow.ll")
        if not os.path.exists(dst):
            with open(dst + ".tmp", "w") as fh:
                seen = set()
                for f in sorted(os.listdir(deps)):
                    if not re.match(r"(rayon|rayon_core|crossbeam_utils|crossbeam_epoch)-[0-9a-f]+\.ll$", f):
                        continue
                    for m in re.finditer(r"^define [^\n]*@(_R\w*5alloc7raw_vec\w*)\([^\n]*\n.*?^}\n", open(os.path.join(deps, f)).read(), re.M | re.S):
                        if m.group(1) not in seen:
                            seen.add(m.group(1))
                            fh.write(m.group(0) + "\n")
            os.rename(dst + ".tmp", dst)
        res.append(dst)
        # keep only a few generations
        gens = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if d.startswith("irs-"))
        for _, d in gens[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        return res, h


def build_native(profile):
    with Lock(profile):
        target = os.path.join(BUILD, profile)
        stamp = os.path.join(BUILD, profile + ".stamp")
        h = tree_hash("native" + profile)
        exe = os.path.join(target, profile, "replay")
        keep = os.path.join(BUILD, "replay-%s-%s" % (profile, h[:16]))
        if stale(target, stamp, h) or not os.path.exists(keep):
            rc, out = cargo(["build", "--bin", "replay", "--features", "native", "--profile", profile, "--offline"],
                            target, "-Awarnings")
            if rc != 0:
                die("ERROR: the replay binary does not build\n" + out[-4000:])
            shutil.copyfile(exe, keep + ".tmp")
            os.chmod(keep + ".tmp", 0o755)
            os.rename(keep + ".tmp", keep)
            open(stamp, "w").write(h)
            gens = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)
                          if d.startswith("replay-%s-" % profile))
            for _, d in gens[:-3]:
                os.unlink(os.path.join(BUILD, d))
        return keep


def case_text(entry, tier, inputs):
    return "case %s %d\n%send\n" % (entry, tier, "".join("%s %s\n" % (k, v) for k, v in inputs))


def run_cases(exe, text, work, name, timeout=300):
    """native runs; returns one list of output lines per case"""
    scratch = os.path.join(work, "tmp-" + name)
    os.makedirs(scratch, exist_ok=True)
    f = os.path.join(work, name + ".cases")
    open(f, "w").write(text)
    try:
        p = subprocess.run([exe, f], cwd=scratch, env=env(TMPDIR=scratch, RUST_BACKTRACE="0"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        out = p.stdout
        if p.returncode != 0:
            out += "\nCRASH rc=%d\n" % p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        out += "\nTIMEOUT\n"
    shutil.rmtree(scratch, ignore_errors=True)
    cases = []
    for l in out.splitlines():
        if l.startswith("CASE "):
            cases.append([])
        elif cases:
            cases[-1].append(l)
    return cases


def outcome(lines):
    fails = [l for l in lines if l.startswith("FAIL ")]
    if any(l.startswith(("ASSUME-FAIL", "ASSUMED", "DESYNC", "NOENTRY")) for l in lines):
        # checks made before the recorded assumption broke still count
        return "assume", fails
    if any(l == "PANICKED" or l.startswith("CRASH") for l in lines):
        return "panic", fails
    if "DONE" in lines:
        return "done", fails
    return "other", fails


def search(exe, entries, ti, seed, work, count, ms):
    """native runs on drawn inputs, only used to look for a counterexample the solver did not deliver"""
    scratch = os.path.join(work, "tmp-rand-" + entries[0])
    os.makedirs(scratch, exist_ok=True)
    hits = []

    def one(e):
        f = os.path.join(work, "rand-%s.cases" % e)
        open(f, "w").write("rand %s %d %d %d %d\n" % (e, ti, seed, count, ms))
        try:
            p = subprocess.run([exe, f], cwd=scratch, env=env(TMPDIR=scratch, RUST_BACKTRACE="0"), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=ms / 1000 + 30)
        except subprocess.TimeoutExpired:
            return []
        got, cur = [], None
        for l in p.stdout.splitlines():
            if l.startswith("HIT "):
                cur = []
            elif l == "ENDHIT":
                got.append((e, cur))
                cur = None
            elif cur is not None:
                cur.append(l.split())
            elif l.startswith("RAN ") and os.environ.get("VERIF_VERBOSE"):
                print("  " + l)
        return got

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for g in ex.map(one, entries):
            hits += g
    shutil.rmtree(scratch, ignore_errors=True)
    return hits


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) label=\"([^\"]*)\" (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = None
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    i = 0
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--entry":
            only = args[i + 1]
            i += 1
        elif args[i] == "--keep":
            keep = True
        elif args[i] == "--setup":
            build_engine()
            build_ir()
            build_native("native")
            build_native("nativerel")
            print("setup done")
            return 0
        else:
            prop = args[i]
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ti = 1 if tier == "thorough" else 0
    cfg = json.load(open(os.path.join(VERIF, "properties_cfg.json"))) if os.path.exists(
        os.path.join(VERIF, "properties_cfg.json")) else {}
    pc = cfg.get(prop, {})
    exe = build_engine()
    lls, h = build_ir()
    native = build_native("native")
    tbuild = time.time() - t0
    work = os.path.join(BUILD, "work-%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    entries = sorted(set(re.findall(r"^define [^@]*@(h_%s_\w+)\(" % prop.lower(), open(lls[0]).read(), re.M)))
    entries = [e for e in entries if ti or not e.endswith(("_rT", "_fT"))]
    if only:
        entries = [e for e in entries if only in e]
    if not entries:
        die("ERROR: no harness entries for %s" % prop)
    total = pc.get("budget", {}).get(tier, 700 if ti == 0 else 6000)
    deadline = t0 + total

    stop = threading.Event()
    found = []

    def engine(e, guess):
        left = deadline - time.time()
        out = os.path.join(work, e + ".json")
        lim = min(left, pc.get("limit", {}).get(tier, 400 if ti == 0 else 5400))
        if lim < 5:
            return None, "not started: time budget used up"
        mode = "ieee" if e.endswith(("_f", "_fT")) else "real"
        cmd = [exe] + [x for l in lls for x in ("--ll", l)] + ["--entry", e, "--mode", mode, "--tier", str(ti), "--out", out,
               "--limit", "%.1f" % lim, "--timeout", str(pc.get("timeout", {}).get(tier, 20000 if ti == 0 else 60000)),
               "--seed", str(seed), "--nwit", str(pc.get("nwit", 3)), "--guess", "1" if guess else "0"]
        if os.path.exists(out):
            os.unlink(out)
        log = os.path.join(work, e + ".log")
        with open(log, "w") as fh:
            p = subprocess.Popen(cmd, stdout=fh, stderr=subprocess.STDOUT, start_new_session=True)
            end = time.time() + lim + 60
            while True:
                try:
                    p.wait(timeout=0.2 if time.time() - t0 < 60 else 1)
                    break
                except subprocess.TimeoutExpired:
                    late = time.time() > end
                    if late or stop.is_set():
                        # the solvers are in the engine's process group
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        return None, "engine watchdog" if late else "stopped: a violation was found in another entry"
        if not os.path.exists(out):
            return None, "engine failed rc=%d: %s" % (p.returncode, open(log).read()[-800:])
        return json.load(open(out)), None

    def reproduces(e, r):
        text = "".join(case_text(e, ti, c["inputs"]) for c in r["cex"])
        for nm in ("native", "nativerel"):
            cs = run_cases(native if nm == "native" else build_native("nativerel"), text, work, "pre-%s-%s" % (nm, e))
            for c in cs:
                o, fails = outcome(c)
                if o == "panic" or fails:
                    return True
        return False

    def one(e):
        if stop.is_set():
            return e, None, "stopped: a violation was found in another entry"
        r, err = engine(e, True)
        if r and r["cex"]:
            if reproduces(e, r):
                if not any(ke == e for ke, kl, kd in kf):
                    stop.set()
            elif any(c["kind"] == "guess" for c in r["cex"]):
                # a guessed assignment without counterpart in the real code: leave it to the solvers
                r, err = engine(e, False)
        if (err and not stop.is_set()) or (r and not r["cex"] and (r["errors"] or r["inconclusive"])):
            # no verdict: look for a violation natively
            hits = search(native, [e], ti, seed, work, 20000, 20000)
            found.extend(hits)
            if hits and not any(ke == e for ke, kl, kd in kf):
                stop.set()
        return e, r, err

    results = {}
    problems = []
    kf = known_findings(prop)
    order = sorted(entries, key=lambda e: -pc.get("weight", {}).get(e, 0))
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for e, r, err in ex.map(one, order):
            if err:
                problems.append("%s: %s" % (e, err))
            else:
                results[e] = r
    tsym = time.time() - t0 - tbuild
    # ---------------------------------------------------------- replay
    viol = []
    knownhits = []
    validated = 0
    witn = 0
    unrepro = 0
    mism = []
    for e in entries:
        r = results.get(e)
        if not r:
            continue
        for x in r["errors"]:
            problems.append("%s: %s" % (e, x))
        for x in r["inconclusive"]:
            problems.append("%s: inconclusive: %s" % (e, x))
        if r["paths"] == 0 and not r["cex"] and not r["errors"]:
            problems.append("%s: vacuous: no complete path" % e)
    cexs = [(e, c) for e in entries if e in results for c in results[e]["cex"]]
    if cexs:
        text = "".join(case_text(e, ti, c["inputs"]) for e, c in cexs)
        outs = [("debug", run_cases(native, text, work, "cex-dev"))]
        outs.append(("release", run_cases(build_native("nativerel"), text, work, "cex-rel")))
        for k, (e, c) in enumerate(cexs):
            hit = None
            for nm, cs in outs:
                if k >= len(cs):
                    continue
                o, fails = outcome(cs[k])
                if o == "panic" or fails:
                    hit = (nm, o, fails, cs[k])
                    break
            if hit is None:
                unrepro += 1
                problems.append("%s: counterexample for '%s' did not reproduce natively" % (e, c["label"]))
                continue
            km = None
            for ke, kl, kd in kf:
                if ke == e and kl == c["label"]:
                    km = kd
            if km:
                knownhits.append(km)
                continue
            rp = os.path.join(EVID, "replays")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, "%s-%d.case" % (prop, len(viol)))
            with open(path, "w") as fh:
                fh.write(case_text(e, ti, c["inputs"]))
            info = [l for l in hit[3] if l.startswith(("FAIL", "PANIC"))][:4]
            viol.append((path, e, c["label"], hit[0], info))
    wt = [(e, w) for e in entries if e in results for w in results[e]["witness"]]
    samples = []
    extra = []
    if wt:
        text = "".join(case_text(e, ti, w["inputs"]) for e, w in wt)
        cs = run_cases(native, text, work, "wit")
        for k, (e, w) in enumerate(wt):
            witn += 1
            if k >= len(cs):
                mism.append("%s: witness %d did not run" % (e, k))
                continue
            o, fails = outcome(cs[k])
            obs = []
            for l in cs[k]:
                if l.startswith("OBS "):
                    obs += [float(x) for x in l.split()[1:]]
            ieee = e.endswith(("_f", "_fT"))
            ok = o == "done" and not fails
            why = o if not fails else "native check failed: " + fails[0]
            if ok:
                if len(obs) != len(w["obs"]):
                    ok = False
                    why = "observation count %d vs %d" % (len(obs), len(w["obs"]))
                else:
                    for (l, v), x in zip(w["obs"], obs):
                        v = float(v)
                        if v != v and x != x or v == x:
                            continue
                        if v != v or x != x or abs(v - x) > 2e-3 * (1 + abs(v) + abs(x)):
                            ok = False
                            why = "%s: engine %r native %r" % (l, v, x)
                            break
            if ok:
                validated += 1
                if len(samples) < 4:
                    samples.append({"entry": e, "inputs": [x[1] for x in w["inputs"]][:24],
                                    "observed": [x for x in obs][:8]})
            else:
                mism.append("%s: %s" % (e, why))
                if fails:
                    # the path's own inputs break the property in the native build
                    extra.append((e, w["inputs"]))
    extra += found
    searched = len(set(x.split(":")[0] for x in problems) & set(entries))
    if not viol and not extra and mism:
        extra = search(native, sorted(set(x.split(":")[0] for x in mism) & set(entries)), ti, seed, work, 20000, 20000)
    for e, inputs in extra:
        text = case_text(e, ti, inputs)
        for nm, exe2 in (("debug", native), ("release", build_native("nativerel"))):
            cs = run_cases(exe2, text, work, "extra")
            o, fails = outcome(cs[0]) if cs else ("other", [])
            lab = [re.sub(r" \[.*", "", x[5:]) for x in fails]
            if not fails and o != "panic" or any(ke == e and kl in lab for ke, kl, kd in kf):
                continue
            rp = os.path.join(EVID, "replays")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, "%s-%d.case" % (prop, len(viol)))
            open(path, "w").write(text)
            viol.append((path, e, lab[0] if lab else "panic", nm, [l for l in cs[0] if l.startswith(("FAIL", "PANIC"))][:4]))
            break
    shown = sorted(set(knownhits))
    # ---------------------------------------------------------- evidence
    tot = lambda k: sum(r[k] for r in results.values())
    funcs = {}
    for r in results.values():
        for f, n, ls in r["coverage"]:
            if f.startswith("src/") and not n.startswith("harness::") or "/repo/" in f:
                funcs.setdefault((f, n), set()).update(ls)
    stubs = sorted(set(s for r in results.values() for s in r["stubs"]))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples or ["no witness"],
            "entries": len(results),
            "entries_expected": len(entries),
            "symbolic_forks": tot("forks"),
            "infeasible_paths": tot("infeasible"),
            "obligations": tot("obligations"),
            "obligations_by_solver": tot("obl_smt"),
            "obligations_within_tolerance": tot("obl_tol"),
            "obligations_constant": tot("obl_syntactic"),
            "solver_queries": tot("queries"),
            "solver_unsat": tot("unsat"),
            "solver_sat": tot("sat"),
            "solver_unknown": tot("unknown"),
            "solver_time_s": round(tot("solver_time"), 2),
            "slowest_query_s": round(max([r["max_query"] for r in results.values()] or [0]), 2),
            "witnesses": witn,
            "entries_searched_natively": searched,
            "functions_encoded": ["%s (%s, %d lines)" % (n, f, len(ls)) for (f, n), ls in sorted(funcs.items())],
            "checks": {e: r["labels"] for e, r in sorted(results.items())},
            "bounds": pc.get("bounds", ""),
            "source_hash": h[:16],
        },
        "assumptions": pc.get("assumptions", []) + ["modelled externally: " + s for s in stubs],
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"replay": v[0], "entry": v[1], "check": v[2], "build": v[3], "native": v[4]} for v in viol],
        "known_findings": shown,
        "problems": problems + mism,
    }
    if ti or not only:
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, "%s.json.tmp%d" % (prop, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(EVID, prop + ".json"))
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d entries, %d paths, %d obligations, %d queries, solver %.1fs, build %.1fs, symbolic %.1fs, total %.1fs, witnesses %d/%d"
          % (prop, tier, len(results), tot("paths"), tot("obligations"), tot("queries"), tot("solver_time"), tbuild, tsym,
             time.time() - t0, validated, witn))
    if only or os.environ.get("VERIF_VERBOSE"):
        for e, r in sorted(results.items()):
            print("  %-44s paths %-6d inf %-4d obl %-6d q %-6d unk %-4d tol %-3d solver %-7.1f max %-6.1f wall %.1f" % (
                e, r["paths"], r["infeasible"], r["obligations"], r["queries"], r["unknown"], r["obl_tol"], r["solver_time"], r["max_query"], r["wall_s"]))
    for k in shown:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for v in viol[:5]:
        print("  %s / %s (%s build): %s" % (v[1], v[2], v[3], "; ".join(v[4])))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][0]))
        return 1
    for x in problems[:10] + mism[:10]:
        print("ERROR: " + x)
    if problems or mism:
        return 2
    print("OK")
    return 0


if __name__ == "__main__":
    sys.exit(main())
