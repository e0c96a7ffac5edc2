#!/usr/bin/env python3
"""Decide one property of /repo's current tree by symbolic execution (see DESIGN.md).

  check.py PROPERTY [--tier quick|thorough]     decide it, write evidence/PROPERTY.json
  check.py --replay FILE                        replay a recorded counterexample on the real code
  check.py --setup                              check that everything needed is installed

Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer (nothing could be built or explored).
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(HERE, ".work")
sys.path.insert(0, HERE)
import jobs as J

T0 = time.time()
CORES = os.cpu_count() or 4
PROCS, LOCK = set(), threading.Lock()


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class NoAnswer(Exception):
    pass


def run(cmd, timeout=None, **kw):
    """Run to completion in a process group of its own; the whole group ends with it."""
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    with LOCK:
        PROCS.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err
    finally:
        with LOCK:
            PROCS.discard(p)
    return p.returncode, out, err


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(os.path.join(d, f) for d, ds, fs in os.walk(root) for f in fs if "/target" not in d and "/.git" not in d)
        for f in files:
            h.update(os.path.relpath(f, root).encode() + b"\0")
            with open(f, "rb") as g:
                h.update(g.read())
    return h.hexdigest()[:16]


def prune(prefix, keep):
    """Drop what earlier trees left behind."""
    for d in os.listdir(WORK):
        if d.startswith(prefix) and d != keep:
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)


def build_engine():
    src = os.path.join(HERE, "engine")
    name = "engine-" + digest([src])
    out = os.path.join(WORK, name)
    exe = os.path.join(out, "lirsym")
    if not os.path.exists(exe):
        prune("engine-", name)
        os.makedirs(out, exist_ok=True)
        objs = []
        ps = []
        for f in ("sym", "ir"):
            o = os.path.join(out, f + ".o")
            objs.append(o)
            ps.append(subprocess.Popen(["g++", "-std=c++17", "-O2", "-w", "-c", "-o", o, os.path.join(src, f + ".cpp")]))
        if any(p.wait() for p in ps):
            raise NoAnswer("the engine does not build")
        if subprocess.call(["g++", "-o", exe + ".tmp"] + objs + ["-lz3", "-lpthread"]):
            raise NoAnswer("the engine does not link")
        os.rename(exe + ".tmp", exe)
    return exe


def build_harness(feature):
    """Compile harness + /repo to one LLVM module, and the same module to the replay binary."""
    name = f"h-{feature}-" + digest([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(HERE, "harness")], feature)
    out = os.path.join(WORK, name)
    ll, exe = os.path.join(out, "harness.ll"), os.path.join(out, "harness")
    if not os.path.exists(os.path.join(out, "ok")):
        prune(f"h-{feature}-", name)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(out, "target")
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="0")
        for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        rc, o, e = run(["cargo", "rustc", "--offline", "--locked", "--bin", "harness", "--features", feature, "--", "-C", "save-temps", "--emit=llvm-ir"], cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if rc != 0:
            raise NoAnswer(f"harness ({feature}) does not build against /repo:\n" + "\n".join(o.splitlines()[-60:]))
        deps = os.path.join(tgt, "debug", "deps")
        lls = [f for f in os.listdir(deps) if re.fullmatch(r"harness-[0-9a-f]{16}\.ll", f)]
        if len(lls) != 1:
            raise NoAnswer(f"expected one LLVM module, found {lls}")
        shutil.move(os.path.join(deps, lls[0]), ll)
        shutil.copy(os.path.join(tgt, "debug", "harness"), exe)
        shutil.rmtree(tgt, ignore_errors=True)
        open(os.path.join(out, "ok"), "w").close()
    return ll, exe


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native(exe, entry, params, inputs, pre=(), timeout=20, limit=True, env={}):
    cmd = list(pre) + [exe, entry, ",".join(map(str, params)), ",".join(map(str, inputs))]
    return run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits if limit else None, env=dict(os.environ, GLIBC_TUNABLES="glibc.malloc.tcache_count=0", **env))


MEMORY = ("oob", "uaf", "free", "layout", "uninit", "ub", "misaligned", "race")


def confirm(exe, entry, params, v):
    """Replay the solver's model on the compiled code. Returns what happened there, or None if nothing did."""
    ins = [x[1] for x in v["inputs"]]
    rc, o, e = native(exe, entry, params, ins)
    if rc is None:
        return "does not terminate within 20 s"
    if rc == 77:
        return "assertion fails: " + o.strip().splitlines()[-1]
    if rc == 78:
        return None
    if rc != 0:
        lines = [l for l in e.splitlines() if l.strip() and "RUST_BACKTRACE" not in l]
        return f"exits with {rc}: " + " | ".join(lines[:3])[:300]
    if entry.startswith("h_share"):
        return confirm_threads(exe, entry, params, ins, v)
    rc, o, e = native(exe, entry, params, ins, ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes"], timeout=120, limit=False)
    if rc not in (0, 78):
        return "valgrind: " + " | ".join(re.sub(r"==\d+== ?", "", l) for l in e.splitlines() if l.strip())[:400]
    return None


def confirm_threads(exe, entry, params, ins, v):
    """The same inputs with real threads: wrong answers in one of many runs, else races helgrind sees where the engine does."""
    env = {"HARNESS_THREADS": "1"}
    for _ in range(300):
        rc, o, e = native(exe, entry, params, ins, env=env)
        if rc is None:
            return "two threads do not end within 20 s"
        if rc == 77:
            return "two threads: assertion fails: " + o.strip().splitlines()[-1]
        if rc not in (0, 78):
            return f"two threads: exits with {rc}: " + " | ".join(e.splitlines()[:3])[:300]
    rc, o, e = native(exe, entry, params, ins, ["valgrind", "-q", "--tool=helgrind", "--demangle=no", "--error-exitcode=99"], timeout=120, limit=False, env=env)
    if rc == 99:
        here = set(v.get("stack", [])[:-1] or v.get("stack", [])) | set(re.findall(r"other thread's \w+ in (\S+)", v.get("msg", "")))
        for part in re.split(r"-{20,}", e):
            if "Possible data race" in part and (v["kind"] != "race" or any(f in part for f in here)):
                return "two threads, helgrind: " + " | ".join(pretty(re.sub(r"==\d+== ?", "", l)) if "_R" in l or "_ZN" in l else re.sub(r"==\d+== ?", "", l) for l in part.splitlines() if l.strip(" =0123456789-"))[:400]
    return None


def pretty(sym):
    parts = re.findall(r"(?<=\d)(?:[A-Za-z_$][\w$]*)", sym) if sym.startswith("_") else [sym]
    # legacy and v0 names are sequences of length-prefixed identifiers
    out, i = [], 0
    while i < len(sym):
        m = re.match(r"(\d+)_?", sym[i:])
        if m and 0 < int(m.group(1)) <= len(sym) - i - len(m.group(1)):
            n = int(m.group(1)); j = i + len(m.group(0)) if sym[i + len(m.group(1)):i + len(m.group(1)) + 1] == "_" and False else i + len(m.group(1))
            w = sym[j:j + n]
            if re.fullmatch(r"[A-Za-z_$.][\w$.]*", w) and not re.fullmatch(r"h[0-9a-f]{16}", w):
                out.append(w); i = j + n; continue
        i += 1
    return "::".join(out) or sym


def known_findings():
    """Lines `finding: property=<id> entry=<e> params=<p> inputs=<i> <what>`; `fixed:` lines suppress nothing."""
    res = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) entry=(\S+) params=(\S*) inputs=(\S*) (.*)", l)
            if m:
                res.append(m.groups())
    return res


def setup():
    for tool in ("g++", "cargo", "valgrind"):
        if not shutil.which(tool):
            sys.exit(f"{tool} is missing")
    os.makedirs(WORK, exist_ok=True)
    build_engine()
    print("ready")


def replay(path):
    r = json.load(open(path))
    os.makedirs(WORK, exist_ok=True)
    _, exe = build_harness(r["feature"])
    got = confirm(exe, r["entry"], r["params"], r)
    print(json.dumps(r, indent=1))
    print("on the current tree:", got or "holds")
    sys.exit(1 if got else 0)


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        return setup()
    if args[:1] == ["--replay"]:
        return replay(args[1])
    pid = args[0]
    tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = J.PROPERTIES[pid]
    todo = J.jobs(pid, tier)
    deadline = T0 + (J.QUICK_S if tier == "quick" else J.THOROUGH_S)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(evidence):
        os.unlink(evidence)

    # Build the engine and every harness module side by side.
    built, errors, ready = {}, [], threading.Condition()

    def work(key, fn, *a):
        try:
            r = fn(*a)
        except BaseException as e:
            r = None
            errors.append(str(e))
        with ready:
            built[key] = r
            ready.notify_all()
    feats = list(dict.fromkeys(j["feature"] for j in todo))
    sem = threading.Semaphore(CORES)

    def harness(f):
        with sem:
            return build_harness(f)
    threads = [threading.Thread(target=work, args=("", build_engine), daemon=True)] + [threading.Thread(target=work, args=(f, harness, f), daemon=True) for f in feats]
    for t in threads:
        t.start()
    build_done = {}

    def wait_any(keys):
        with ready:
            while True:
                if errors:
                    raise NoAnswer(errors[0])
                for k in keys:
                    if k in built:
                        return k, built[k]
                ready.wait()
    _, engine = wait_any([""])
    left = list(feats)
    results, violations, unconfirmed, mismatches, validated = [], [], [], [], 0
    rnd = random.Random(seed)
    stop = False
    pool = ThreadPoolExecutor(CORES)

    def validate(exe, r):
        """The compiled code must do what the symbolic run says it does; returns what it made of samples and violations."""
        ok, bad, viols = 0, [], []
        for s in r["samples"]:
            rc, o, e = native(exe, r["entry"], r["params"], [x[1] for x in s["inputs"]])
            m = re.search(r"^OUT(.*)$", o or "", re.M)
            outs = [int(x) for x in m.group(1).split()] if m else None
            if rc == 0 and outs == [int(x) for x in s["outs"]]:
                ok += 1
            else:
                bad.append({"entry": r["entry"], "params": r["params"], "inputs": s["inputs"], "expected": s["outs"], "native": [rc, outs, (e or "")[:200]]})
        for v in r["violations"]:
            how = confirm(exe, r["entry"], r["params"], v)
            viols.append({"property": pid, "feature": r["feature"], "entry": r["entry"], "params": r["params"], "kind": v["kind"], "id": v["id"], "msg": v["msg"], "inputs": v["inputs"], "stack": [pretty(s) for s in v["stack"]], "native": how})
        return ok, bad, viols

    def collect(futures):
        nonlocal validated
        for f in futures:
            ok, bad, viols = f.result()
            validated += ok
            mismatches.extend(bad)
            for v in viols:
                (violations if v["native"] else unconfirmed).append(v)

    while left and not stop:
        f, (ll, exe) = wait_any(left)
        left.remove(f)
        mine = [j for j in todo if j["feature"] == f]
        log(f"module {f}: {len(mine)} jobs")
        rem = max(0, deadline - time.time())
        par = J.PARALLEL[tier]
        p = subprocess.Popen([engine, ll, "--threads", str(CORES), "--jobs", str(par), "--mem-mb", str(26000 // par), "--deadline", str(int(rem)), "--samples", str(J.SAMPLES), "--seed", str(seed), "--max-viol", "4"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        with LOCK:
            PROCS.add(p)
        errbuf = []
        threading.Thread(target=lambda: errbuf.append(p.stderr.read()), daemon=True).start()

        def feed():
            try:
                for j in mine:
                    p.stdin.write(f'{j["entry"]};{",".join(map(str, j["params"]))};{j["time"]:.1f};;{j.get("pin", "")};{j.get("steps", "")}\n')
                p.stdin.close()
            except (BrokenPipeError, ValueError):
                pass
        threading.Thread(target=feed, daemon=True).start()
        answered, futures = 0, []
        for line in p.stdout:
            n, _, got = line.partition(" ")
            j, r = mine[int(n)], json.loads(got)
            answered += 1
            if r.get("skipped"):
                results.append(dict(j, skipped=True))
                continue
            if "died" in r:
                log(f'{j["entry"]}({",".join(map(str, j["params"]))}): the engine ended with {r["died"]}')
                results.append(dict(j, skipped=True, died=r["died"]))
                continue
            r.update(feature=f, time=j["time"], pin=j.get("pin", ""), what=j.get("what", ""))
            results.append(r)
            state = "complete" if r["complete"] else "violation" if r["violations"] else "INCOMPLETE"
            log(f'{j["entry"]}({",".join(map(str, j["params"]))}){" pinned " + j["pin"] if j.get("pin") else ""}: {state}, {r["paths"]} paths, {r["queries"]} queries, solver {r["solver_s"]:.1f} s, {r["wall_s"]:.1f} s', "; ".join(r["notes"][:2]))
            futures.append(pool.submit(validate, exe, r))
            if r["violations"]:
                collect(futures)
                futures = []
                if len(violations) >= (1 if tier == "quick" else 8):
                    stop = True
                    break
        collect(futures)
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        with LOCK:
            PROCS.discard(p)
        if answered < len(mine) and not stop:
            raise NoAnswer(f"the engine stopped after {answered} of {len(mine)} jobs: {p.returncode} {''.join(errbuf)[-500:]}")

    # known findings
    known, fresh = [], []
    kf = known_findings()
    for v in violations:
        ins = ",".join(x[1] for x in v["inputs"])
        hit = [k for k in kf if k[0] == pid and k[1] == v["entry"] and k[2] == ",".join(map(str, v["params"])) and k[3] == ins]
        (known if hit else fresh).append((v, hit[0][4] if hit else ""))
    for v, what in known:
        print(f"KNOWN-FINDING: property={pid} {what}")

    ran = [r for r in results if not r.get("skipped")]
    fn = {}
    for r in ran:
        for name, c, b, n in r["functions"]:
            o = fn.setdefault(pretty(name), [0, 0, 0])
            o[0] = max(o[0], c); o[1] = b; o[2] = n
    own = {k: v for k, v in fn.items() if "hash_trie" in k}
    sample = [dict(entry=r["entry"], params=r["params"], inputs=[int(x[1]) for x in s["inputs"]], observed=[int(x) for x in s["outs"]]) for r in ran for s in r["samples"][:1]]
    rnd.shuffle(sample)
    tot = lambda k: sum(r[k] for r in ran)
    cov = {
        "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated, "samples": sample[:12],
        "explanation": "states: feasible paths explored to the end, each for every input that follows it; transitions: LLVM instructions executed symbolically",
        "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
        "assertion_queries": tot("assert_queries"), "branch_decisions": tot("decisions"), "paths_cut_by_assumptions": tot("infeasible"), "paths_inconclusive": tot("inconclusive"),
        "solver_s": round(tot("solver_s"), 2), "exploration_s": round(tot("wall_s"), 2),
        "engine_ended": [r["died"] for r in results if r.get("died")],
        "exhaustive": bool(ran) and all(r["complete"] for r in ran) and len(ran) == len(results),
        "bounds": [{"entry": r["entry"], "params": r["params"], **({"pinned_inputs": r["pin"]} if r.get("pin") else {}), **({"what": r["what"]} if r.get("what") else {}), "complete": bool(r.get("complete")), **({"skipped": True} if r.get("skipped") else {"paths": r["paths"], "timeout": r["timeout"], "inconclusive": r["inconclusive"], "assertions_reached": len(r["asserts"]), "wall_s": round(r["wall_s"], 2), "notes": r["notes"][:3]})} for r in results],
        "functions_encoded": len(fn), "functions_of_the_crate": len(own),
        "functions": [f"{k}: {v[0]}/{v[1]} blocks, {v[2]} instructions" for k, v in sorted(own.items())][:200],
        "sample_mismatches": mismatches[:4], "unconfirmed": unconfirmed[:4],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": J.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(fresh)}
    with open(evidence, "w") as g:
        json.dump(ev, g, indent=1)

    if fresh:
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}.json")
        v = fresh[0][0]
        with open(path, "w") as g:
            json.dump(v, g, indent=1)
        print(f'counterexample: {v["entry"]}({",".join(map(str, v["params"]))}) inputs {[int(x[1]) for x in v["inputs"]]}: {v["kind"]} {v["msg"]} (assertion {v["id"]}); on the compiled code: {v["native"]}')
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if mismatches:
        print("the symbolic run and the compiled code disagree:", json.dumps(mismatches[0]))
        sys.exit(2)
    vague = [v for v in unconfirmed if v["kind"] in ("hang", "uninit")]  # the engine's own step limit; values no run can be seen to use
    for v in vague:
        log("inconclusive:", json.dumps(v))
    if len(unconfirmed) > len(vague):
        unconfirmed = [v for v in unconfirmed if v not in vague]
        print("a counterexample does not reproduce on the compiled code:", json.dumps(unconfirmed[0]))
        sys.exit(2)
    if not any(r["paths"] and r["reach"] for r in ran):
        print("nothing was explored to the end:", {n for r in ran for n in r["notes"]})
        sys.exit(2)
    bad = [r for r in ran if not r["complete"]]
    log(f"{pid} held: {len(ran)} jobs, {len(bad)} incomplete, {len(results) - len(ran)} skipped, {cov['states']} paths, {cov['queries_discharged']} queries, {validated} native traces")


if __name__ == "__main__":
    try:
        main()
    except NoAnswer as e:
        print("NO ANSWER:", e, flush=True)
        os._exit(2)
    finally:
        for p in list(PROCS):
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
