#!/usr/bin/env python3
"""Solver-based checks for rs-async-zip.

  check.py PROPERTY [--tier quick|thorough]   decide one property against /repo's working tree
  check.py --setup                            build the engine, the harness and the replay binary
  check.py --harness NAME ...                 run single harnesses (development)

The harnesses (harness/src) call the crate's public API.  They are compiled together with /repo's current source to LLVM
IR, and `engine` (engine/src) executes that IR symbolically; every branch, assertion, panic, bounds check and allocation
is decided by an SMT solver over all values of the symbolic inputs.  Counterexamples are replayed natively (replay/src)
before anything is reported.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, resource, shutil, subprocess, sys, tarfile, time

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
REPO = "/repo"
TOKIO = "1.54.1"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = max(1, min(8, os.cpu_count() or 8))

sys.path.insert(0, V)
from harnesses import PROPS, FILES  # noqa: E402


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def sh(cmd, cwd=None, timeout=900, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
    return p


def need(p, what):
    if p.returncode != 0:
        raise CheckError("%s failed (%d):\n%s\n%s" % (what, p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    return p


def sysroot_bin(tool):
    r = need(sh(["rustc", "--print", "sysroot"]), "rustc").stdout.strip()
    return os.path.join(r, "lib/rustlib/x86_64-unknown-linux-gnu/bin", tool)


def link_tokio():
    """models/tokio wraps the real tokio, whose source is in cargo's registry."""
    link = os.path.join(V, "models/tokio/real")
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    src = sorted(glob.glob(home + "/registry/src/*/tokio-%s" % TOKIO))
    if not src:
        d = os.path.join(BUILD, "tokio")
        crates = glob.glob(home + "/registry/cache/*/tokio-%s.crate" % TOKIO)
        if not crates:
            raise CheckError("tokio %s is not in cargo's registry" % TOKIO)
        os.makedirs(d, exist_ok=True)
        with tarfile.open(crates[0]) as t:
            t.extractall(d)
        src = [os.path.join(d, "tokio-" + TOKIO)]
    if not os.path.islink(link) or os.readlink(link) != src[-1]:
        if os.path.islink(link):
            os.remove(link)
        os.symlink(src[-1], link)


def build_engine():
    d = os.path.join(V, "engine")
    t = os.path.join(BUILD, "engine")
    need(sh(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", d + "/Cargo.toml", "--target-dir", t]), "engine build")
    return os.path.join(t, "release", "symex")


def build_harness():
    d = os.path.join(V, "harness")
    t = os.path.join(BUILD, "harness")
    for f in glob.glob(t + "/release/deps/harness-*.bc"):
        os.remove(f)
    for f in glob.glob(t + "/release/deps/libharness*") + glob.glob(t + "/release/libharness*"):
        os.remove(f)
    need(sh(["cargo", "rustc", "--release", "--offline", "--locked", "--lib", "--crate-type", "staticlib", "--manifest-path", d + "/Cargo.toml",
             "--target-dir", t, "--", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]), "harness build (symbolic)")
    bc = [f for f in glob.glob(t + "/release/deps/harness-*.rcgu.bc")]
    if len(bc) != 1:
        raise CheckError("expected one bitcode file, got %r" % bc)
    return bc[0]


def build_replay():
    d = os.path.join(V, "replay")
    t = os.path.join(BUILD, "replay")
    need(sh(["cargo", "build", "--offline", "--locked", "--manifest-path", d + "/Cargo.toml", "--target-dir", t]), "harness build (replay)")
    return os.path.join(t, "debug", "replay")


def limit_memory(gib):
    n = int(gib * (1 << 30))
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (n, n))


def lower(opt, bc, entry, outdir):
    ll = os.path.join(outdir, entry + ".ll")
    need(sh([opt, "-passes=internalize,globaldce,function(lower-invoke,simplifycfg,scalarizer<load-store>),globaldce",
             "--internalize-public-api-list=" + entry, "-strip-debug", bc, "-S", "-o", ll]), "opt")
    return ll


def nothing(why):
    return dict(paths=0, instructions=0, infeasible=0, queries=0, slow_queries=0, model_hits=0, cache_hits=0, solver_s=0.0, max_query_s=0.0,
                solver="", max_inputs=0, asserts={}, reach={}, functions=[], samples=[], violations=[], errors=[why], timed_out=False, failed=True, real_s=0)


def symex(engine, ll, h, outdir, deadline, found, seen):
    out = os.path.join(outdir, h["entry"] + ".json")
    t = time.time()
    budget = int(max(15, min(h["time"], deadline - t)))
    cmd = [engine, "--ll", ll, "--entry", h["entry"], "--out", out, "--time", str(budget), "--max-viol", "6"]
    if h.get("steps"):
        cmd += ["--steps", str(h["steps"])]
    fail = None
    with open(out + ".err", "w+") as err:
        p = subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limit_memory(h.get("mem", 3.8)))
        while True:
            try:
                p.wait(1)
                break
            except subprocess.TimeoutExpired:
                if not found and os.path.exists(out):
                    try:
                        seen(json.load(open(out)))
                    except ValueError:
                        pass
                over = time.time() - t > budget + 60
                # Once a violation is certain, the others get a little longer only.
                if over or found and time.time() - found[0] > 45:
                    p.kill()
                    p.wait()
                    fail = "engine did not stop" if over else "stopped, as a violation was found elsewhere"
                    break
        if not fail and (p.returncode != 0 or not os.path.exists(out)):
            err.seek(0)
            fail = "engine failed (%d): %s" % (p.returncode, err.read()[-1500:])
    if fail and os.path.exists(out):
        # What was found before the failure stands.
        r = json.load(open(out))
        r["errors"].append(fail)
        r["timed_out"], r["failed"] = True, True
    elif fail:
        r = nothing(fail)
    else:
        r = json.load(open(out))
    r["real_s"] = round(time.time() - t, 2)
    os.remove(ll)
    return r


def replay(binary, entry, inputs, outdir, tag):
    f = os.path.join(outdir, "%s.%s.in" % (entry, tag))
    with open(f, "w") as fh:
        fh.write(" ".join(str(x) for x in inputs) + "\n")
    try:
        p = subprocess.run([binary, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        rc, so = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, so = "timeout", (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
    lines = [l[7:] for l in so.splitlines() if l.startswith("REPLAY ")]
    return rc, lines, f


def assert_text(aid):
    fno, line = aid // 100000, aid % 100000
    f = FILES.get(fno)
    if not f:
        return "assertion %d" % aid
    try:
        src = open(os.path.join(V, "harness/src", f)).read().splitlines()
        t = src[line - 1].strip()
        c = src[line - 2].strip() if line >= 2 and src[line - 2].strip().startswith("//") else ""
        return "%s:%d: %s %s" % (f, line, t, c)
    except Exception:
        return "%s:%d" % (f, line)


def confirm(binary, h, v, outdir, n):
    """Replays a counterexample natively; returns (reproduced, description, file)."""
    rc, lines, f = replay(binary, h["entry"], v["inputs"], outdir, "cex%d" % n)
    last = lines[-1] if lines else ""
    k = v["kind"]
    if rc == 101:
        return True, "panics natively: " + last[6:300], f
    if rc == 102:
        return True, "assertion fails natively: " + assert_text(int(last.split()[1])), f
    if rc == 103:
        return True, "allocates %s bytes natively (limit %s)" % tuple(last.split()[1:3]), f
    if rc == "timeout" and k == "nonterm":
        return True, "does not terminate natively within 60 s", f
    if isinstance(rc, int) and rc < 0:
        return True, "killed by signal %d natively" % -rc, f
    return False, "rc=%s last=%s" % (rc, last[:200]), f


def known_findings():
    r = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) harness=(\w+) key=(\S+) (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


def listed(prop, entry, v):
    """The known finding that a violation is, if any."""
    return [x for x in known_findings() if x[0] == prop and x[1] == entry and x[2] == re.sub(r"\s", "", v["key"])]


def run_harnesses(prop, hs, outdir, seconds):
    link_tokio()
    with cf.ThreadPoolExecutor(JOBS + 2) as ex:
        fe, fh, fr = ex.submit(build_engine), ex.submit(build_harness), ex.submit(build_replay)
        engine, bc = fe.result(), fh.result()
        opt = sysroot_bin("opt")

        deadline = time.time() + seconds

        found = []

        def one(h):
            if found:
                return nothing("not run, as a violation was found elsewhere")

            def seen(r):
                for n, v in enumerate(r["violations"]):
                    if not found and not listed(prop, h["entry"], v) and confirm(fr.result(), h, v, outdir, n)[0]:
                        found.append(time.time())

            r = symex(engine, lower(opt, bc, h["entry"], outdir), h, outdir, deadline, found, seen)
            seen(r)
            return r

        with cf.ThreadPoolExecutor(JOBS) as pool:
            order = sorted(hs, key=lambda h: -h.get("cost", 1))
            futs = {h["entry"]: pool.submit(one, h) for h in order}
            res = {k: f.result() for k, f in futs.items()}
        binary = fr.result()
    return engine, binary, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--harness", nargs="*")
    ap.add_argument("--time", type=int)
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        link_tokio()
        with cf.ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(build_engine), ex.submit(build_harness), ex.submit(build_replay)]:
                f.result()
        print("built in %.1f s" % (time.time() - t0))
        return 0
    if a.harness:
        allh = {h["entry"]: h for p in PROPS.values() for h in p["harnesses"]}
        hs = [dict(allh.get(n, dict(entry=n))) for n in a.harness]
        prop = "dev"
    else:
        if a.prop not in PROPS:
            print("unknown property", a.prop)
            return 2
        prop = a.prop
        hs = [dict(h) for h in PROPS[prop]["harnesses"] if a.tier == "thorough" or not h.get("deep")]
    for h in hs:
        h["time"] = a.time or h.get("time", 3600 if a.tier == "thorough" else 300)
    outdir = os.path.join(BUILD, "run", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    engine, binary, res = run_harnesses(prop, hs, outdir, 500 if a.tier == "quick" and not a.harness else 36000)

    errors, undecided, viol, known_hit, notes = [], [], [], [], []
    samples_ok, samples = 0, []
    for h in hs:
        r = res[h["entry"]]
        name = h["entry"]
        n_ok = 0
        for i, s in enumerate(r["samples"]):
            rc, lines, f = replay(binary, name, s["inputs"], outdir, "s%d" % i)
            obs = [int(l[4:]) for l in lines if l.startswith("obs ")]
            if rc != 0 or obs != s["observed"]:
                if rc in (101, 102, 103):
                    # natively failing where the executor saw no failure: the executor is wrong, unless the executor
                    # reported the same failure on another value of the same path
                    if r["violations"]:
                        continue
                errors.append("%s: sample %d disagrees with the native run (rc=%s, %d/%d observations equal)" % (
                    name, i, rc, sum(1 for x, y in zip(obs, s["observed"]) if x == y), len(s["observed"])))
            else:
                n_ok += 1
                os.remove(f)
        samples_ok += n_ok
        if r["samples"]:
            samples.append(dict(harness=name, inputs=[str(x) for x in r["samples"][-1]["inputs"][:64]], observed=len(r["samples"][-1]["observed"])))
        for n, v in enumerate(r["violations"]):
            okv, desc, f = confirm(binary, h, v, outdir, n)
            what = v["msg"]
            if v["kind"] == "assert":
                what = assert_text(int(v["key"].split(":")[1]))
            k = listed(prop, name, v)
            if not okv and v["kind"] == "nonterm":
                notes.append("%s: a path exceeded the step bound but terminates natively; it is unexplored beyond the bound" % name)
            elif not okv:
                undecided.append("%s: undecided path: counterexample for %s (%s) does not reproduce natively: %s [%s]" % (name, v["key"], what, desc, f))
            elif k:
                known_hit.append((name, k[0][3]))
            else:
                viol.append(dict(harness=name, key=v["key"], what=what, native=desc, inputs=v["inputs"], trace=v["trace"], file=f))
        if r["errors"]:
            # Paths the executor could not decide (an instruction it does not know, a solver that gave up): unexplored, not wrong.
            undecided += ["%s: undecided path: %s" % (name, e) for e in r["errors"][:4]]
        if r["timed_out"]:
            notes.append("%s: time budget of %d s reached after %d paths; the rest is unexplored" % (name, h["time"], r["paths"]))
        missing = [x for x in h.get("reach", [1]) if str(x) not in r["reach"]]
        if missing and not r["violations"] and not r["errors"]:
            notes.append("%s: witness points %s not reached" % (name, missing))
            if not r["timed_out"] and not h.get("soft_reach"):
                errors.append("%s: vacuous: witness points %s were not reached on any feasible path" % (name, missing))

    if not any(r["paths"] for r in res.values()):
        errors += undecided
    wall = round(time.time() - t0, 1)
    fns = sorted({f for r in res.values() for f in r["functions"] if "async_zip" in f})
    if not a.harness:
        P = PROPS[prop]
        ev = dict(
            property=prop, tier="thorough" if a.tier == "thorough" else "quick", seed=SEED, level="model_checking", wall_s=wall,
            violations=len(viol),
            assumptions=P.get("assumptions", []) + COMMON_ASSUMPTIONS,
            coverage=dict(
                states=sum(r["paths"] for r in res.values()),
                transitions=sum(r["instructions"] for r in res.values()),
                traces_validated_against_impl=samples_ok,
                samples=samples,
                exhaustive=not any(r["timed_out"] for r in res.values()) and not errors and not undecided,
                meaning="states = feasible symbolic paths executed to their end; transitions = IR instructions executed on them; "
                        "traces_validated_against_impl = path witnesses re-run natively with identical observations",
                bounds=P["bounds"],
                outside=P.get("outside", ""),
                queries=sum(r["queries"] for r in res.values()),
                slow_queries=sum(r["slow_queries"] for r in res.values()),
                decided_without_solver=sum(r["model_hits"] + r["cache_hits"] for r in res.values()),
                solver_s=round(sum(r["solver_s"] for r in res.values()), 2),
                solver=max(r["solver"] for r in res.values()),
                functions_encoded=len(fns),
                functions=[f for f in fns][:400],
                notes=notes + undecided + errors,
                harnesses={h["entry"]: dict(
                    what=h.get("what", ""), paths=res[h["entry"]]["paths"], instructions=res[h["entry"]]["instructions"],
                    infeasible=res[h["entry"]]["infeasible"], queries=res[h["entry"]]["queries"], solver_s=res[h["entry"]]["solver_s"],
                    max_query_s=res[h["entry"]]["max_query_s"], wall_s=res[h["entry"]]["real_s"],
                    complete=not res[h["entry"]]["timed_out"] and not res[h["entry"]]["errors"], symbolic_inputs=res[h["entry"]]["max_inputs"],
                    assertions=len(res[h["entry"]]["asserts"]), assertion_checks=sum(res[h["entry"]]["asserts"].values()),
                    reached=res[h["entry"]]["reach"]) for h in hs},
            ),
        )
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for h in hs:
        r = res[h["entry"]]
        print("%-28s paths=%-6d instr=%-10d queries=%-6d solver=%6.1fs wall=%6.1fs %s" % (
            h["entry"], r["paths"], r["instructions"], r["queries"], r["solver_s"], r["real_s"],
            "TIMEOUT" if r["timed_out"] else "errors" if r["errors"] else "violations" if r["violations"] else "complete"))
    for x in notes + undecided:
        print("note:", x)
    for n, d in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if viol:
        os.makedirs(os.path.join(BUILD, "violations"), exist_ok=True)
        for i, v in enumerate(viol):
            f = os.path.join(BUILD, "violations", "%s-%d.json" % (prop, i))
            json.dump(dict(v, property=prop, how="%s %s %s" % (binary, v["harness"], v["file"])), open(f, "w"), indent=1)
            print("  %s [%s] %s" % (v["harness"], v["key"], v["what"]))
            print("    " + v["native"])
            print("    inputs: " + " ".join(str(x) for x in v["inputs"][:80]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if errors:
        for e in errors:
            print("error:", e)
        return 2
    print("%s: held on everything explored (%.1f s)" % (prop, wall))
    return 0


COMMON_ASSUMPTIONS = [
    "harness and crate are compiled by rustc 1.99 to LLVM IR (opt-level 1, fat LTO, overflow checks on, panic=abort) and that IR is what is executed; the code generator and CPU are trusted",
    "crc32fast is replaced by an equivalent small-table implementation during symbolic execution (the real crate is linked for replays); async-compression is replaced by a toy codec with the same interface",
    "the global allocator never fails; allocations above the harness limit count as violations",
    "the symbolic executor (engine/src) and Z3 are trusted; path witnesses are re-run natively and compared to detect executor errors",
]

if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("error:", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
