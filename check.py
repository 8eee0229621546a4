#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

usage: check.py <ID> [quick|thorough]     decide property <ID>
       check.py --replay FILE             re-run a recorded counterexample natively
       check.py --build                   build the engine and the harness only

exit 0: held on every path within the bounds; 1: violated (VIOLATION line);
2: no answer (engine error, bound not exhausted, unconfirmed candidate).
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")
TARGET = os.path.join(BUILD, "target")
ENGINE = os.path.join(BUILD, "engine/release/sxengine")
NATIVE = os.path.join(TARGET, "release/vharness")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/usr/local/bin:" + os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    return e


class CheckError(Exception):
    pass


def run(cmd, cwd=None, timeout=None, extra=None, name=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        out = p.stderr.decode(errors="replace")[-4000:]
        raise CheckError("%s failed (%d):\n%s" % (name or cmd[0], p.returncode, out))
    return p


def llvm_bin():
    p = run(["rustc", "--print", "sysroot"])
    b = os.path.join(p.stdout.decode().strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    if not os.path.exists(os.path.join(b, "opt")):
        raise CheckError("llvm-tools not found in " + b)
    return b


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, sub, fs in os.walk(root):
                sub[:] = sorted(x for x in sub if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build():
    """Engine, then harness + /repo's current tree (bitcode and native)."""
    os.makedirs(BUILD, exist_ok=True)
    run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"),
        extra={"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")}, name="engine build")
    src = tree_hash([os.path.join(V, "harness/src"), os.path.join(V, "harness/sx_native.c"),
                     os.path.join(V, "harness/Cargo.toml"), os.path.join(REPO, "src"),
                     os.path.join(REPO, "Cargo.toml")])
    stamp = os.path.join(BUILD, "stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    bcs = glob.glob(os.path.join(TARGET, "release/deps/vharness-*.bc"))
    if old == src and len(bcs) == 1 and os.path.exists(NATIVE):
        return bcs[0], src
    if os.path.exists(stamp):
        os.remove(stamp)
    # content decides, not mtimes: forget earlier builds of the two crates
    for pat in ("release/deps/*vharness*", "release/deps/*visdom*", "release/.fingerprint/vharness*",
                "release/.fingerprint/visdom*", "release/vharness*"):
        for f in glob.glob(os.path.join(TARGET, pat)):
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    obj = os.path.join(BUILD, "sx_native.o")
    run(["gcc", "-O1", "-c", "sx_native.c", "-o", obj], cwd=os.path.join(V, "harness"))
    run(["cargo", "rustc", "--release", "--offline", "--", "--emit=llvm-bc", "-Clink-arg=" + obj],
        cwd=os.path.join(V, "harness"), extra={"CARGO_TARGET_DIR": TARGET}, name="harness build (from /repo's tree)")
    bcs = glob.glob(os.path.join(TARGET, "release/deps/vharness-*.bc"))
    if len(bcs) != 1:
        raise CheckError("expected one bitcode file, found %r" % bcs)
    with open(stamp, "w") as f:
        f.write(src)
    return bcs[0], src


def make_ir(bc, src, name, entries):
    """Reduce the bitcode to what the entries reach, optimise it, print it."""
    eng = hashlib.sha256(open(ENGINE, "rb").read()).hexdigest()
    out = os.path.join(BUILD, "ir_%s.ll" % name)
    tag = src + eng
    if os.path.exists(out) and os.path.exists(out + ".tag") and open(out + ".tag").read() == tag:
        return out
    b = llvm_bin()
    a_bc, a_ll, b_ll = (os.path.join(BUILD, "ir_%s.%s" % (name, x)) for x in ("a.bc", "a.ll", "b.ll"))
    keep = "--internalize-public-api-list=" + ",".join(entries)
    run([b + "/opt", bc, "--strip-debug", keep, "-passes=internalize,globaldce,strip-dead-prototypes", "-o", a_bc], name="opt (reduce)")
    run([b + "/llvm-dis", a_bc, "-o", a_ll])
    run([ENGINE, "prep", a_ll, b_ll])
    run([b + "/opt", b_ll, keep,
         "-passes=globaldce,function(lower-invoke,simplifycfg,lower-atomic),globaldce,"
         "function(sroa,early-cse,simplifycfg),globaldce,"
         "cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)),"
         "function(lower-invoke,simplifycfg),globaldce,strip-dead-prototypes",
         "-vectorize-loops=false", "-vectorize-slp=false", "-S", "-o", out], name="opt (O2)")
    for f in (a_bc, a_ll, b_ll):
        os.remove(f)
    with open(out + ".tag", "w") as f:
        f.write(tag)
    return out


def native(entry, draws, thorough, path):
    """Replay concrete values against the natively compiled real code."""
    with open(path, "w") as f:
        f.write("".join("%d\n" % d for d in draws))
    e = env()
    e.update(SX_REPLAY=path, SX_THOROUGH="1" if thorough else "0", RUST_BACKTRACE="0")
    try:
        p = subprocess.run([NATIVE, entry], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
        rc, err = p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, err = "timeout", (x.stderr or b"").decode(errors="replace")
    notes = []
    cur = None
    for l in err.split("\n"):
        if l.startswith("SX NOTE "):
            notes.append(l[8:])
    return rc, notes, err


def load_config():
    with open(os.path.join(V, "checks.json")) as f:
        return json.load(f)


def known_findings(pid):
    p = os.path.join(V, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k["property"] == pid and k["status"] == "known":
                    r.append(k)
    return r


def decide(pid, tier):
    t0 = time.time()
    cfg = load_config()[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    bc, src = build()
    t_build = time.time() - t0
    parts = cfg["entries"]
    limit = 3000 if thorough else 600
    replays = os.path.join(V, "replays")
    os.makedirs(replays, exist_ok=True)
    for f in glob.glob(os.path.join(replays, pid + "-*")):
        os.remove(f)
    res = []
    violations, errors, known_hit = [], [], []
    validated = 0
    t1 = time.time()
    ll = make_ir(bc, src, pid, ["prop_" + p["entry"] for p in parts])
    t_ir = time.time() - t1
    for part in parts:
        entry = "prop_" + part["entry"]
        out = os.path.join(BUILD, "out_%s.json" % entry)
        if os.path.exists(out):
            os.remove(out)
        run([ENGINE, "run", "--ll", ll, "--entry", entry, "--threads", str(os.cpu_count() or 8), "--time", str(limit),
             "--out", out, "--thorough", "1" if thorough else "0", "--seed", str(seed), "--samples", "40",
             "--max-bad", "12"], name="symbolic execution of " + entry)
        j = json.load(open(out))
        j["part"] = part
        res.append(j)
        tmp = os.path.join(BUILD, "replay_%s.txt" % entry)
        tried = 0
        for e in j["ends"]:
            if e["kind"] == "inconclusive":
                # no verdict on this path; it still counts as a violation when
                # the real code fails (or does not come back) on its input
                if e.get("draws") is None or tried > 3:
                    errors.append("%s: %s %s" % (entry, e["msg"], e.get("stack", [])[:4]))
                    continue
                tried += 1
                rc, notes, err = native(entry, e["draws"], thorough, tmp)
                if rc == 0 or rc in (78, 79):
                    errors.append("%s: %s %s" % (entry, e["msg"], e.get("stack", [])[:4]))
                    continue
            else:
                rc, notes, err = native(entry, e["draws"], thorough, tmp)
            if rc == 0 or rc in (78, 79):
                errors.append("%s: candidate %s (%s) not confirmed natively, rc=%s draws=%s" % (entry, e["kind"], e["msg"], rc, e["draws"]))
                continue
            why = [l for l in err.split("\n") if l.startswith("SX FAIL") or "panicked at" in l]
            k = next((k for k in known_findings(pid) if k["entry"] == part["entry"] and
                      any(k["match"] in l for l in why + notes)), None)
            if k:
                known_hit.append(k)
                continue
            violations.append((part["entry"], e, rc, notes, why, err))
        for s in j["samples"]:
            rc, notes, err = native(entry, s["draws"], thorough, tmp)
            if rc != 0:
                errors.append("%s: path that holds symbolically ends with rc=%s natively, draws=%s" % (entry, rc, s["draws"]))
            elif notes != s["notes"]:
                errors.append("%s: notes differ natively: %r vs %r" % (entry, notes, s["notes"]))
            else:
                validated += 1
        if os.path.exists(tmp):
            os.remove(tmp)
        if not violations:
            for l in part["reach"]:
                if l not in j["reached"]:
                    errors.append("%s: vacuous, label %r never reached" % (entry, l))
    # evidence
    tot = lambda k: sum(j[k] for j in res)
    fns = sorted({f for j in res for f in j["functions"]})
    mine = [f for f in fns if "visdom" in f]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("insts"),
            "traces_validated_against_impl": validated,
            "samples": [{"notes": s["notes"], "draws": s["draws"]} for j in res for s in j["samples"][:6]],
            "exhaustive": not errors and not violations,
            "units": "states = symbolic path ends (each stands for all inputs of its path condition); transitions = LLVM instructions executed symbolically",
            "entries": [{"entry": j["entry"], "bounds": j["part"]["bounds_thorough" if thorough and "bounds_thorough" in j["part"] else "bounds"],
                         "paths": j["paths"], "reached": j["reached"], "wall_s": j["wall_s"]} for j in res],
            "pruned_by_assume": tot("assume"), "forks": tot("forks"),
            "solver": {"z3": res[0]["z3"] if res else "", "z3_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
                       "query_cache_hits": tot("query_cache_hits"), "finite_domain_queries": tot("fd_queries"),
                       "finite_domain_infeasible": tot("fd_unsat"), "of_which_reproved_by_z3": tot("fd_crosschecked"),
                       "single_variable_decisions": tot("dec_table"), "single_variable_verdicts_by_z3": tot("certs"), "single_variable_verdicts_reused": tot("cert_hits"), "solver_s": round(tot("solver_s"), 3),
                       "assertions_decided_by_solver": tot("checks_solver")},
            "functions_encoded": len(fns), "visdom_functions_encoded": mine,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "ir_s": round(t_ir, 2),
        "violations": len(violations), "errors": errors[:20],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    done = set()
    for k in known_hit:
        if k["match"] not in done:
            done.add(k["match"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for i, (entry, e, rc, notes, why, err) in enumerate(violations[:6]):
        p = os.path.join(replays, "%s-%d.json" % (pid, i))
        with open(p, "w") as f:
            json.dump({"property": pid, "entry": "prop_" + entry, "thorough": thorough, "draws": e["draws"], "kind": e["kind"],
                       "msg": e["msg"], "notes": e["notes"], "native_rc": rc, "native_notes": notes, "native_stderr": err[-3000:]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s %s | %s | %s" % (e["kind"], e["msg"], "; ".join(why), " | ".join(notes)))
    print("%s %s: %d paths, %d instructions, %d z3 queries, %d validated natively, %.1f s (build %.1f, ir %.1f)" % (
        pid, tier, tot("paths"), tot("insts"), tot("queries"), validated, time.time() - t0, t_build, t_ir))
    if violations:
        return 1
    for x in errors[:20]:
        print("ERROR " + x)
    return 2 if errors else 0


ASSUMPTIONS = [
    "LLVM IR of the harness plus /repo's current tree (release, overflow checks on, panic=abort), simplified and inlined by LLVM's opt, is executed by the engine in /verif/engine; rustc, LLVM, Z3 and the engine are trusted, and sampled paths plus every counterexample are replayed against the native build",
    "hash values are abstracted to a constant (iteration order of hash maps is not relied on), one thread, one CPU, no file system, allocation never fails",
    "bounds as stated per entry",
]


def replay(path):
    j = json.load(open(path))
    build()
    tmp = os.path.join(BUILD, "replay_manual.txt")
    rc, notes, err = native(j["entry"], j["draws"], j["thorough"], tmp)
    print(err)
    print("rc=%s" % rc)
    return 0 if rc == 0 else 1


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if a[0] == "--build":
            build()
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return decide(a[0], tier)
    except CheckError as e:
        print("ERROR " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
