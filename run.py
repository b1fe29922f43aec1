#!/usr/bin/env python3
"""Decide one property: build the harness against /repo, extract its IR, execute it symbolically.

    run.py PROPERTY [--tier quick|thorough] [--only ENTRY,..] [--record] [--keep]

Exit 0: held on everything explored. 1: violation. 2: no verdict (build failure, incomplete
exploration, a counterexample that does not reproduce, a vacuous harness).
"""
import sys, os, json, subprocess, time, glob, re, shutil, threading, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.environ.get("MSX_BUILD") or os.path.join(V, ".build")
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], env=e, capture_output=True).stdout
        e.update(dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x))
    e = {k: v for k, v in e.items() if k not in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "LD_PRELOAD")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    return e


ENV = base_env()


def sh(cmd, cwd=None, env=None, timeout=800, what=None):
    e = dict(ENV)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        die((what or cmd[0]) + " failed (exit %d)" % r.returncode)
    return r.stdout.decode(errors="replace")


def llvm_bin():
    root = sh(["rustc", "--print", "sysroot"]).strip()
    return os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build_engine():
    sh(["cargo", "build", "--release", "-q"], cwd=V + "/engine", env={"CARGO_TARGET_DIR": B + "/engine"}, what="engine build")
    return B + "/engine/release/msx"


def build_sym(crate):
    """IR of the harness and everything it links, as the compiler hands it to LLVM's back end."""
    d = V + "/harness/" + crate
    t = B + "/sym-" + crate
    name = "h_" + crate.replace("-", "_")
    for f in glob.glob(t + "/sym/deps/%s*.bc" % name) + glob.glob(t + "/sym/deps/*%s*.so" % name):
        os.remove(f)
    for f in glob.glob(t + "/sym/.fingerprint/h-%s-*" % crate):
        shutil.rmtree(f)
    sh(["cargo", "rustc", "-q", "--profile", "sym", "--lib", "--crate-type", "cdylib"], cwd=d,
       env={"CARGO_TARGET_DIR": t, "RUSTFLAGS": "-C save-temps -C no-prepopulate-passes"}, what="harness build (" + crate + ")")
    bc = glob.glob(t + "/sym/deps/%s*.lto.after-restriction.bc" % name)
    if len(bc) != 1:
        die("expected one LTO module for %s, found %r" % (crate, bc))
    return bc[0]


def build_native(crate, profile):
    d = V + "/harness/" + crate
    t = B + "/nat-" + crate
    cmd = ["cargo", "build", "-q", "--bin", "h-" + crate] + (["--release"] if profile == "release" else [])
    sh(cmd, cwd=d, env={"CARGO_TARGET_DIR": t, "RUSTFLAGS": "--cfg sym_native"}, what="native build (%s, %s)" % (crate, profile))
    return t + ("/release/" if profile == "release" else "/debug/") + "h-" + crate


class Native:
    """The natively compiled harness, built on demand, for replays and for the comparison of paths."""

    def __init__(self, crate):
        self.crate, self.bins, self.lock = crate, {}, threading.Lock()

    def bin(self, profile):
        with self.lock:
            if profile not in self.bins:
                self.bins[profile] = build_native(self.crate, profile)
            return self.bins[profile]

    def run(self, profile, entry, inp, limits=None, timeout=20):
        cmd = [self.bin(profile), entry, inp or ""] + ([str(x) for x in limits] if limits else [])
        # Address space is limited too, so that a runaway allocation cannot take the sandbox down.
        cmd = ["bash", "-c", 'ulimit -v 8000000; ulimit -c 0; exec "$@"', "-"] + cmd
        try:
            p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return "timeout", "", ""


def reproduces(nat, entry, v, limits):
    """Which native builds show the violation the executor found."""
    res = {}
    for prof in ("dev", "release"):
        lim = limits if v["kind"] == "memory-bound" else None
        rc, out, err = nat.run(prof, entry, v["input"], lim)
        last = [x for x in out.splitlines() if x.startswith("NATIVE")]
        why = None
        if v["kind"] == "check":
            if rc == 20 and last and last[-1] == "NATIVE check " + v["what"]:
                why = "check failed"
        elif v["kind"] in ("panic", "abort"):
            if rc in (-6, 134, 101, -4, 132) or "panicked at" in err:
                why = (re.findall(r"panicked at [^\n]*\n?[^\n]*", err) or ["aborted"])[0].replace("\n", " ")
        elif v["kind"] == "memory-bound":
            if rc == 21 or "memory allocation of" in err or "capacity overflow" in err or rc == "timeout":
                why = "memory bound exceeded" if rc != "timeout" else "does not terminate in 20 s"
        elif v["kind"] in ("steps", "recursion"):
            if rc == "timeout":
                why = "does not terminate in 20 s"
            elif rc in (-6, -11, 134, 139) or rc == 21 or "memory allocation of" in err:
                why = "stack overflow or out of memory"
        elif v["kind"] == "memory":
            if isinstance(rc, int) and rc < 0 or rc in (134, 139):
                why = "crashed with %s" % rc
        res[prof] = (why, rc, err[-400:])
    return res


def prep(crate, bc, entries, work, msx, llvm):
    a, b, c = (os.path.join(work, "%s.%s.ll" % (crate, x)) for x in "abc")
    sh([llvm + "/opt", "-S", "-passes=strip-dead-prototypes", bc, "-o", a], what="opt")
    sh([msx, "prep", a, b], what="prep")
    os.remove(a)
    sh([llvm + "/opt", "-S", "-passes=internalize,globaldce,default<O1>,globaldce",
        "-internalize-public-api-list=" + ",".join(entries), "-vectorize-loops=false", "-vectorize-slp=false", b, "-o", c], what="opt O1")
    os.remove(b)
    return c


def entries_of(bc, llvm):
    out = sh([llvm + "/llvm-nm", "--defined-only", "--just-symbol-name", bc]) if os.path.exists(llvm + "/llvm-nm") else ""
    return sorted(set(out.split()))


def demangle(names):
    try:
        out = subprocess.run(["c++filt", "-r"], input="\n".join(names), capture_output=True, text=True).stdout.splitlines()
        return out if len(out) == len(names) else names
    except OSError:
        return names


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = "quick"
    only, record, keep = None, False, False
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 2
        elif a[i] == "--only":
            only = a[i + 1].split(","); i += 2
        elif a[i] == "--record":
            record = True; i += 1
        elif a[i] == "--keep":
            keep = True; i += 1
        else:
            die("unknown option " + a[i])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    for f in glob.glob(V + "/evidence/replay/%s-*" % prop):
        os.remove(f)
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == prop]
    expected = json.load(open(V + "/reach.json")) if os.path.exists(V + "/reach.json") else {}
    work = B + "/work-" + prop
    os.makedirs(work, exist_ok=True)

    msx = build_engine()
    llvm = llvm_bin()
    violations, errors, notes, reports, known_hits = [], [], [], [], {}
    validated = mismatched = 0
    reach = {}
    for crate, pre in cfg["harness"]:
        nat = Native(crate)
        lockf = open(B + "/lock-" + crate, "w")
        fcntl.flock(lockf, fcntl.LOCK_EX)
        with ThreadPoolExecutor(2) as ex:
            fn = ex.submit(nat.bin, "dev")
            bc = build_sym(crate)
            fn.result()
        log("built harness", crate)
        syms = entries_of(bc, llvm)
        ents = [s for s in syms if s.startswith(pre + "_")]
        if tier == "thorough":
            ents += [s for s in syms if s.startswith("t_" + pre + "_")]
        if only:
            ents = [e for e in ents if e in only]
        if not ents:
            if only:
                continue
            die("no entry points for %s in %s" % (prop, crate))
        ll = prep(crate, bc, ents, work, msx, llvm)
        fcntl.flock(lockf, fcntl.LOCK_UN)
        o = dict(cfg.get("opts", {}))
        if tier == "thorough":
            o.update(cfg.get("thorough_opts", {}))
        o.setdefault("time", 240 if tier == "quick" else 1500)
        o.setdefault("samples", 24)
        o.setdefault("heap", 64 << 20)
        o.setdefault("alloc", 16 << 20)
        # Entry points with listed findings are explored to the end, others only shortly after a violation.
        o["patient"] = ",".join(e for e in ents if any(re.fullmatch(k["entry"], e) for k in known)) or "-"
        o.setdefault("budget", max(60, (760 if tier == "quick" else 3300) - (time.time() - T0)))
        out = os.path.join(work, crate + ".json")
        cmd = [msx, "run", "--ll", ll, "--out", out, "--entry", ",".join(ents)]
        for k, v in o.items():
            cmd += ["--" + k, str(v)]
        log("executing %d entry points of %s" % (len(ents), crate))
        sh(cmd, timeout=3500, what="symbolic execution")
        rep = json.load(open(out))
        if not keep:
            os.remove(ll)
        limits = (o["heap"], o["alloc"])
        for e in rep["entries"]:
            e["crate"] = crate
            name = e["entry"]
            reports.append(e)
            log("%-34s %6d paths %9d decisions %7d queries %6.2fs%s%s" % (
                name, e["paths"], e["decisions"], e["queries_sat"] + e["queries_unsat"], e["wall_s"],
                "" if e["complete"] else "  INCOMPLETE", "  %d violation(s)" % len(e["violations"]) if e["violations"] else ""))
            reach[name] = {"covers": sorted(e["covers"]), "checks": sorted(e["check_sites"])}
            for x in e["inconclusive"]:
                errors.append("%s: inconclusive: %s (%d paths, e.g. input %s)" % (name, x["reason"], x["count"], x["input"]))
            if e["unexplored"]:
                errors.append("%s: %d paths unexplored within the budget" % (name, e["unexplored"]))
            if e["done"] == 0 and not e["violations"]:
                errors.append("%s: no path reaches the end" % name)
            for v in e["violations"]:
                k = next((k for k in known if re.fullmatch(k["entry"], name) and k["kind"] == v["kind"] and re.search(k["what"], v["what"])), None)
                r = reproduces(nat, name, v, limits)
                hit = [p for p in r if r[p][0]]
                rec = dict(crate=crate, entry=name, kind=v["kind"], what=v["what"], input=v["input"], paths=v["count"],
                           stack=demangle(v["stack"])[:12], native={p: r[p][0] or "not reproduced (exit %s)" % r[p][1] for p in r})
                if not hit:
                    errors.append("%s: %s '%s' with input %s does not reproduce natively: %s" % (
                        name, v["kind"], v["what"], v["input"], {p: r[p][1:] for p in r}))
                elif k:
                    known_hits.setdefault(k["id"], (k, rec))
                else:
                    violations.append(rec)
            # Paths the executor finished: the native build must observe the same values.
            def cmp(s):
                rc, so, se = nat.run("dev", name, s["input"])
                got = [x[4:] for x in so.splitlines() if x.startswith("OBS ")]
                return s, rc, got, se
            with ThreadPoolExecutor(8) as ex:
                for s, rc, got, se in ex.map(cmp, e["samples"]):
                    if rc != 0 or got != s["obs"]:
                        mismatched += 1
                        errors.append("%s: path with input %s: native run gives exit %s %s, executor %s %s" % (
                            name, s["input"], rc, got[:40], s["obs"][:40], se[-300:]))
                    else:
                        validated += 1
        # A harness that no longer reaches what it used to reach decides nothing.
        if not violations:
            for name, r in reach.items():
                w = expected.get(name)
                if w is None:
                    if not record:
                        errors.append("%s: no reachability record (run with --record)" % name)
                    continue
                for kind in ("covers", "checks"):
                    miss = sorted(set(w[kind]) - set(r[kind]))
                    if miss and not record:
                        errors.append("%s: no longer reaches %s %s" % (name, kind, miss))
    if record:
        for n in reach:
            expected[n] = reach[n]
        with open(V + "/reach.json", "w") as f:
            json.dump(expected, f, indent=1, sort_keys=True)
            f.write("\n")

    # ---- report
    funcs = sorted({f for e in reports for f in e["functions"]})
    dem = demangle(funcs)
    own = sorted({d for d in dem if re.search(r"\b(mabo|line_index|h_gen)", d) and "h_%s::" % "x" not in d and not re.match(r"^<?h_", d)})
    tot = lambda k: sum(e[k] for e in reports)
    samples = []
    for e in reports:
        for s in e["samples"][:2]:
            samples.append({"entry": e["entry"], "input": s["input"], "observed": s["obs"][:16]})
    replays = []
    for n, r in enumerate(violations):
        path = V + "/evidence/replay/%s-%d.sh" % (prop, n)
        with open(path, "w") as f:
            f.write("#!/bin/bash\n# %s: %s\n# stack: %s\n# native: %s\n" % (r["kind"], r["what"].replace("\n", " "), " < ".join(r["stack"]), json.dumps(r["native"])))
            f.write(". /opt/vp/env.sh\ncd %s/harness/%s && CARGO_TARGET_DIR=%s/nat-%s RUSTFLAGS='--cfg sym_native' cargo build -q --bin h-%s || exit 2\n" % (V, r["crate"], B, r["crate"], r["crate"]))
            lim = " %d %d" % (cfg.get("opts", {}).get("heap", 64 << 20), cfg.get("opts", {}).get("alloc", 16 << 20)) if r["kind"] == "memory-bound" else ""
            f.write("timeout 20 %s/nat-%s/debug/h-%s %s '%s'%s\n" % (B, r["crate"], r["crate"], r["entry"], r["input"], lim))
        os.chmod(path, 0o755)
        replays.append(path)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"), "traces_validated_against_impl": validated,
            "samples": samples[:24],
            "explanation": "Each state is one feasible path of the compiled harness and library, standing for every input that follows it; each "
                           "transition is one branch, select, memory index or check decided over the symbolic input. Every path was explored "
                           "unless 'incomplete' says otherwise. Traces are executor paths replayed on the native build with equal observations.",
            "bounds": cfg["bounds"],
            "outside_the_bounds": cfg.get("outside", ""),
            "entry_points": [{k: e[k] for k in ("entry", "crate", "complete", "paths", "done", "assumed_away", "instructions", "decisions", "checks",
                                                "checks_by_solver", "queries_sat", "queries_unsat", "queries_unknown", "queries_cached",
                                                "solver_s", "max_query_s", "symbolic_bytes", "wall_s", "covers", "check_sites")} for e in reports],
            "functions_encoded": len(funcs),
            "functions_of_the_project": own,
            "instructions_executed": tot("instructions"), "paths_completed": tot("done"), "checks_evaluated": tot("checks"),
            "checks_decided_by_solver": tot("checks_by_solver"),
            "solver": {"name": rep.get("z3", "z3"), "sat": tot("queries_sat"), "unsat": tot("queries_unsat"), "unknown": tot("queries_unknown"),
                       "cached": tot("queries_cached"), "seconds": round(tot("solver_s"), 3)},
            "incomplete": [x for x in errors],
        },
        "assumptions": cfg.get("assumptions", []) + ["the compiler's IR of the 'sym' profile (opt-level 1, overflow checks on) means what the shipped code does",
                                                      "engine/ implements LLVM IR semantics correctly (checked on every run by replaying sampled paths natively)",
                                                      "hash maps and sets are explored in the iteration order of one fixed hash"],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
        "violation_details": [dict(r, replay=p) for r, p in zip(violations, replays)],
        "known_findings": [dict(id=k["id"], **rec) for k, rec in known_hits.values()],
    }
    # Evidence of a partial or recording run would not describe the check.
    if not only:
        with open(V + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k, rec in known_hits.values():
        print("KNOWN-FINDING: property=%s %s (entry %s, input %s)" % (prop, k["title"], rec["entry"], rec["input"]))
    for r, p in zip(violations, replays):
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("   %s: %s: %s  input=%s native=%s" % (r["entry"], r["kind"], r["what"], r["input"], r["native"]))
        print("   at " + " < ".join(r["stack"][:6]))
    for e in errors:
        print("ERROR:", e)
    log("%s %s: %d paths, %d checks, %d queries, solver %.2fs, %d traces validated" % (
        prop, tier, tot("paths"), tot("checks"), ev["coverage"]["solver"]["sat"] + ev["coverage"]["solver"]["unsat"], tot("solver_s"), validated))
    sys.exit(1 if violations else 2 if errors else 0)


main()
