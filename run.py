#!/usr/bin/env python3
"""Decide one property: python3 run.py P01 [quick|thorough]

1. compile /repo's current sources together with the property's harness to one LLVM module
2. execute every harness entry symbolically (engine/, Z3) within the bounds of checks.py
3. replay counterexamples (and a sample of ordinary paths) natively against the real code
Exit 0: held; 1 (+ VIOLATION line): broken; 2: no answer (build failure, bound too deep, ...).
"""
import sys, os, json, time, subprocess, shutil, fcntl, threading, glob, resource

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks

WORK = os.path.join(V, "work")
LL_T, RP_T, EN_T = (os.path.join(WORK, d) for d in ("ll", "rp", "en"))


def env(base, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUST_BACKTRACE"):
            e.pop(k)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(base)
    e.update(kw)
    return e


def sh(cmd, cwd, e, log):
    with open(log, "ab") as f:
        return subprocess.call(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)


def build(features, want_replay=True):
    """-> (symex, ll, replay) or raises"""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = {k: os.path.join(WORK, f"build-{k}.log") for k in ("ll", "rp", "en")}
    for p in log.values():
        open(p, "w").close()
    rc = {}
    hw = os.path.join(V, "hw")
    feats = ",".join(features)

    def b_ll():
        for d in glob.glob(os.path.join(LL_T, "release/.fingerprint/harness-*")):
            shutil.rmtree(d, ignore_errors=True)
        for f in glob.glob(os.path.join(LL_T, "release/deps/*harness-*")):
            os.unlink(f)
        rc["ll"] = sh(
            ["cargo", "rustc", "--offline", "--locked", "--release", "-p", "harness", "--features", feats, "--", "--emit=llvm-ir"],
            hw,
            env({"RUSTUP_TOOLCHAIN": "1.83.0", "CARGO_TARGET_DIR": LL_T,
                 "RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=yes"}),
            log["ll"])

    def b_rp():
        rc["rp"] = sh(
            ["cargo", "build", "--offline", "--locked", "--profile", "replay", "-p", "replay", "--features", feats],
            hw, env({"RUSTUP_TOOLCHAIN": "1.83.0", "CARGO_TARGET_DIR": RP_T}), log["rp"])

    def b_en():
        rc["en"] = sh(["cargo", "build", "--offline", "--release"], os.path.join(V, "engine"),
                      env({"RUSTUP_TOOLCHAIN": "1.83.0", "CARGO_TARGET_DIR": EN_T}), log["en"])

    ts = [threading.Thread(target=f) for f in ((b_ll, b_rp, b_en) if want_replay else (b_ll, b_en))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k in ("en", "ll", "rp") if want_replay else ("en", "ll"):
        if rc.get(k) != 0:
            tail = open(log[k]).read()[-3000:]
            raise RuntimeError(f"build of {k} failed\n{tail}")
    lls = glob.glob(os.path.join(LL_T, "release/deps/harness-*.ll"))
    if len(lls) != 1:
        raise RuntimeError(f"expected one LLVM module, found {lls}")
    run = os.path.join(WORK, f"run-{os.getpid()}")
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    ll = os.path.join(run, "module.ll")
    os.rename(lls[0], ll)
    rp = os.path.join(run, "replay")
    if want_replay:
        shutil.copy(os.path.join(RP_T, "replay/replay"), rp)
    sx = os.path.join(run, "symex")
    shutil.copy(os.path.join(EN_T, "release/symex"), sx)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return run, sx, ll, rp


def native(rp, entry, f, ps):
    """run the recorded input against the real code -> (exit status or "timeout", output)"""
    lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        q = subprocess.run([rp, entry, f, ps], capture_output=True, text=True, errors="replace", timeout=30, preexec_fn=lim,
                           env={**os.environ, "MALLOC_PERTURB_": "221"})
    except subprocess.TimeoutExpired:
        return "timeout", "REPLAY did not terminate within 30 s"
    return q.returncode, q.stdout if q.stdout.strip() else q.stderr[-300:]


FAILED = (1, 101, -4, -5, -6, -7, -8, -9, -11, "timeout")


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        try:
            shutil.rmtree(build(["p01"])[0], ignore_errors=True)
        except RuntimeError as e:
            print("ERROR", e)
            return 1
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    cfg = checks.CHECKS[prop]
    t0 = time.time()
    try:
        run, sx, ll, rp = build([prop.lower()], not cfg.get("threads"))
    except RuntimeError as e:
        print("ERROR", e)
        return 2
    points = 0
    if cfg.get("threads"):
        # scheduling points in the module; the replay runs that same module natively
        import threads
        tl, tn = os.path.join(run, "threads.ll"), os.path.join(run, "threads")
        points = threads.instrument(ll, tl)
        bad = threads.native(tl, tn, V, sorted({r["entry"] for r in cfg["runs"]}))
        if bad:
            print("ERROR", bad)
            return 2
        ll, rp = tl, tn
    t_build = time.time() - t0
    res, status, viols, samples, replayed = [], 0, 0, [], 0
    known_path = os.path.join(V, "known_findings.jsonl")
    known = []
    if os.path.exists(known_path):
        known = [json.loads(l) for l in open(known_path) if l.strip()]
    for r in cfg["runs"]:
        if only and r["entry"] != only:
            continue
        for params in r.get(tier, r.get("quick", [])):
            out = os.path.join(run, "out")
            shutil.rmtree(out, ignore_errors=True)
            ps = ",".join(map(str, params))
            budget = r.get("timeout", 600 if tier == "quick" else 3000)
            cmd = [sx, "--ll", ll, "--entry", r["entry"], "--out", out, "--timeout", str(budget), "--workers", str(os.cpu_count() or 8),
                   "--witness", "12", "--params", ps, "--max-insts", str(r.get("max_insts", 400_000_000))]
            if r.get("poison"):
                cmd.append("--poison")
            p = subprocess.run(cmd, capture_output=True, text=True)
            try:
                s = json.load(open(os.path.join(out, "summary.json")))
            except Exception:
                print(f"ERROR {r['entry']}({ps}): executor failed rc={p.returncode} {p.stderr[-500:]}")
                status = max(status, 2) if status != 1 else 1
                continue
            s["params"] = params
            s["bounds"] = r.get("bounds", "")
            kf = [k for k in known if k.get("status") == "known" and k["property"] == prop and k.get("entry") == r["entry"]]
            bad = None
            if s["status"] == "error":
                # a path the executor could not finish (instruction budget, wild pointer, ...) is a violation if the
                # real code does not terminate on it, crashes, or fails the assertion; otherwise there is no answer
                for f in sorted(glob.glob(os.path.join(out, "err*.txt"))):
                    if native(rp, r["entry"], f, ps)[0] in FAILED:
                        shutil.copy(f, os.path.join(out, "viol0.txt"))
                        s["status"] = "violation"
                        break
            if s["status"] == "violation":
                vf = os.path.join(out, "viol0.txt")
                head = open(vf).readline().strip("# \n")
                rc, text = native(rp, r["entry"], vf, ps)
                s["replay"] = (text.strip().splitlines() or ["?"])[-1]
                if rc in FAILED:
                    if kf:
                        print(f"KNOWN-FINDING: property={prop} {kf[0]['what']}")
                        s["known_finding"] = True
                    else:
                        d = os.path.join(WORK, "replays")
                        os.makedirs(d, exist_ok=True)
                        keep = os.path.join(d, f"{prop}-{r['entry']}-{'-'.join(map(str, params))}.txt")
                        shutil.copy(vf, keep)
                        shutil.copy(rp, os.path.join(d, f"{prop}-replay"))
                        with open(keep, "a") as f:
                            f.write(f"# native: {s['replay']}\n# rerun: {os.path.join(d, prop + '-replay')} {r['entry']} {keep} {ps}\n")
                        print(f"{r['entry']}({ps}): {head[:400]}")
                        print("  " + open(keep).read().replace("\n", "\n  ")[:1500])
                        print(f"VIOLATION property={prop} replay={keep}")
                        viols += 1
                        status = 1
                else:
                    bad = f"counterexample did not reproduce natively ({s['replay']}): {head[:300]}"
            elif s["status"] != "complete":
                errf = os.path.join(out, "err0.txt")
                bad = s["status"] + " " + (open(errf).read()[:600] if os.path.exists(errf) else "") + p.stderr[-300:]
            else:
                if kf and r.get("known"):
                    pass
                miss = [c for c in r.get("covers", []) if c not in s["covers"]]
                if miss:
                    bad = f"vacuous: cover points {miss} not reached"
                for w in sorted(glob.glob(os.path.join(out, "witness*.txt"))):
                    rc, text = native(rp, r["entry"], w, ps)
                    if rc != 0:
                        bad = f"conformance: native run disagrees with the symbolic path: {rc} {text[-300:]} {open(w).read()[:300]}"
                        break
                    replayed += 1
                    if len(samples) < 6:
                        samples.append({"entry": r["entry"], "params": params, "input": [l for l in open(w).read().splitlines() if l.startswith("obj")][:24]})
            if bad:
                print(f"ERROR {r['entry']}({ps}): {bad}")
                s["problem"] = bad
                if status != 1:
                    status = 2
            print(f"{r['entry']}({ps}): {s['status']} paths={s['paths']} queries={s['solver_queries']} solver={s['solver_s']}s wall={s['wall_s']}s rss={s['maxrss_mb']}MB", flush=True)
            res.append(s)
            if status == 1 and tier == "quick":
                break
        if status == 1 and tier == "quick":
            break
    fns = sorted({f for s in res for f in s.pop("functions_dd_sds", [])})
    tot = lambda k: sum(s[k] for s in res)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks"), "transitions": tot("instructions"),
            "traces_validated_against_impl": replayed,
            "samples": samples,
            "symbolic_paths_completed": tot("paths"),
            "solver_queries": tot("solver_queries"), "sat": tot("sat"), "unsat": tot("unsat"),
            "solver_seconds": round(tot("solver_s"), 3), "query_cache_hits": tot("query_cache_hits"),
            "byte_domain_decisions": tot("domain_decisions"),
            "assertions_sent_to_solver": tot("asserts_sent_to_solver"),
            "assertions_reduced_to_true_by_simplification": tot("asserts_decided_on_concrete_value"),
            "functions_encoded_dd_sds": fns,
            **({"scheduling_points_in_module": points} if points else {}),
            "functions_encoded_total_max": max([s["functions_total"] for s in res] or [0]),
            "runs": res, "exhaustive": status == 0, "build_s": round(t_build, 1),
            "explanation": "states = symbolic states (paths + forks); transitions = LLVM instructions executed symbolically; the solver decides every branch and assertion over all values within the bounds of each run",
        },
        "assumptions": (checks.ASSUMPTIONS if not points else checks.THREADS) + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": viols,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("KEEP_RUN") != "1":
        shutil.rmtree(run, ignore_errors=True)
    print(f"{prop} {tier}: exit {status} in {time.time() - t0:.1f}s (build {t_build:.1f}s)")
    return status


sys.exit(main())
