#!/usr/bin/env python3
"""Decide one property: build genco's current source to LLVM IR together with the property's
harnesses, execute them symbolically (engine/), replay every explored path on the native build, and
report. Usage: check.py PROPERTY | --setup | --all | --list. Tier from VERIF_TIER (quick|thorough)."""
import glob, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
WORKERS = min(8, os.cpu_count() or 1)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402
from meta import META  # noqa: E402


class CheckError(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD", "CARGO_PROFILE"))}
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def run(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: " + " ".join(cmd))
    return p


def must(cmd, **kw):
    p = run(cmd, **kw)
    if p.returncode != 0:
        raise CheckError("failed: %s\n%s\n%s" % (" ".join(cmd), p.stdout[-3000:], p.stderr[-6000:]))
    return p


def build_engine():
    d = os.path.join(BUILD, "engine")
    must(["cargo", "build", "--offline", "--release"], cwd=os.path.join(HERE, "engine"), env=env(CARGO_TARGET_DIR=d))
    return os.path.join(d, "release", "gsx")


def build_native(features):
    d = os.path.join(BUILD, "native")
    must(["cargo", "build", "--offline", "--release", "--bin", "replay", "--no-default-features", "--features", ",".join(features)],
         cwd=os.path.join(HERE, "harness"), env=env(CARGO_TARGET_DIR=d))
    return os.path.join(d, "release", "replay")


def sysroot():
    return must(["rustc", "--print", "sysroot"], env=env()).stdout.strip()


def build_ir(features, entries, tag):
    d = os.path.join(BUILD, "sym")
    pat = os.path.join(d, "sym", "build", "gh", "*", "out", "gh-????????????????.ll")
    pat2 = os.path.join(d, "sym", "deps", "gh-*.ll")
    for f in glob.glob(pat) + glob.glob(pat2):
        os.remove(f)
    # a fresh fingerprint so that the .ll is always written again
    for f in glob.glob(os.path.join(d, "sym", "build", "gh", "*", "fingerprint", "*")):
        try:
            os.remove(f)
        except OSError:
            pass
    must(["cargo", "rustc", "--offline", "--lib", "--profile", "sym", "--crate-type", "staticlib",
          "--no-default-features", "--features", ",".join(features), "--",
          "-C", "relocation-model=static", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "--emit=llvm-ir"],
         cwd=os.path.join(HERE, "harness"), env=env(CARGO_TARGET_DIR=d))
    lls = glob.glob(pat) + glob.glob(pat2)
    if len(lls) != 1:
        raise CheckError("expected one .ll, got %r" % lls)
    out = os.path.join(BUILD, "%s.ll" % tag)
    must([os.path.join(sysroot(), "lib", "rustlib", "x86_64-unknown-linux-gnu", "bin", "opt"), "--strip-debug",
          "-passes=internalize,globaldce,function(lower-invoke,lower-atomic,scalarizer,simplifycfg),globaldce,strip-dead-prototypes",
          "-internalize-public-api-list=" + ",".join(entries), "-S", lls[0], "-o", out])
    return out


def crate_dep_versions():
    out = []
    for line in open(os.path.join(HERE, "harness", "Cargo.lock")):
        out.append(line)
    return out


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def demangle(n):
    # v0/legacy: keep the readable identifiers only
    if n.startswith("_ZN"):
        parts, i = [], 3
        while i < len(n) and n[i].isdigit():
            m = re.match(r"\d+", n[i:])
            k = int(m.group())
            i += len(m.group())
            parts.append(n[i:i + k])
            i += k
        return "::".join(parts[:-1] if parts and re.match(r"h[0-9a-f]{16}$", parts[-1]) else parts)
    if n.startswith("_R"):
        ids = re.findall(r"(?<![0-9])(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", n)
        parts = []
        for k, s in ids:
            parts.append(s[:int(k)])
        return "::".join(p for p in parts if p)
    return n


def native_one(replay, entry, params, ins, timeout=20):
    """Run one concrete case on the native build: (status, text)."""
    try:
        p = subprocess.run([replay, entry, ",".join(map(str, params)), "--one", ins], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace",
                           preexec_fn=limit_mem)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout
    if p.returncode < 0 or p.returncode >= 128 or not p.stdout:
        return "crash", "killed by signal %d" % -p.returncode
    return p.stdout.split("|", 1)[0], p.stdout


def limit_mem():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_all(replay, entry, params, paths_file):
    """Replay every explored path natively; returns (replayed, disagreements)."""
    lines = open(paths_file).read().splitlines()
    n = max(1, min(WORKERS, len(lines) // 500 + 1))
    chunks = [lines[i::n] for i in range(n)]

    def go(i):
        f = "%s.%d" % (paths_file, i)
        with open(f, "w") as h:
            h.write("".join(l + "\n" for l in chunks[i]))
        try:
            p = subprocess.run([replay, entry, ",".join(map(str, params)), f], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=300, text=True, errors="replace", preexec_fn=limit_mem)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired:
            out, rc = "", -999
        os.remove(f)
        m = re.search(r"replayed (\d+) disagreements (\d+)", out)
        if not m:
            # the process died: find the case
            k, bad = 0, []
            for l in chunks[i][:2000]:
                c = l.split("|", 3)
                st, txt = native_one(replay, entry, params, c[1])
                k += 1
                if st != c[0] and c[0] != "limit":
                    bad.append("DISAGREE in=%s engine=%s native=%s %s" % (c[1], c[0], st, txt[:200]))
                    if len(bad) > 3:
                        break
            return k, bad
        return int(m.group(1)), [l for l in out.splitlines() if l.startswith("DISAGREE")] if rc else []

    tot, bad = 0, []
    with ThreadPoolExecutor(n) as ex:
        for k, b in ex.map(go, range(n)):
            tot += k
            bad += b
    return tot, bad


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = PROPS[pid]
    runs = [r for r in p["runs"] if tier == "thorough" or not r.get("thorough_only")]
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    for f in glob.glob(os.path.join(HERE, "evidence", "replay", pid + "-*")):
        os.remove(f)
    entries = sorted({r["entry"] for r in runs})
    prebuild = p.get("prebuild")
    if prebuild:
        prebuild(HERE, BUILD, env())
    with ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine)
        fn = ex.submit(build_native, p["features"])
        fi = ex.submit(build_ir, p["features"], entries, pid)
        gsx, replay, ll = fe.result(), fn.result(), fi.result()
    build_s = time.time() - t0
    known = [k for k in known_findings() if k["property"] == pid]

    cov = {"entries": [], "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "queries": 0, "query_unsat": 0, "query_sat": 0, "query_cache_hits": 0, "solver_s": 0.0,
           "symbolic_asserts": 0, "asserts": 0, "functions_encoded": 0, "functions": []}
    funcs = set()
    viols, knowns, errors = [], {}, []
    for r in runs:
        params = list(r.get("params", []))
        if tier == "thorough" and "thorough" in r:
            params = list(r["thorough"])
        while len(params) < 8:
            params.append(0)
        for k in known:
            while len(params) <= 8 + k["flag"]:
                params.append(0)
            params[8 + k["flag"]] = 1
        out = os.path.join(BUILD, "%s-%s" % (pid, r.get("name", r["entry"])))
        secs = r.get("secs", 240) if tier == "quick" else r.get("thorough_secs", 1800)
        if tier == "quick":
            secs = max(10, min(secs, int(760 - (time.time() - t0))))
        for f in glob.glob(out + ".*"):
            os.remove(f)
        try:
            g = run([gsx, "--ll", ll, "--entry", r["entry"], "--out", out, "--params", ",".join(map(str, params)),
                     "--workers", str(WORKERS), "--secs", str(secs), "--max-steps", str(r.get("max_steps", 5_000_000)),
                     "--query-ms", "60000"], timeout=secs + 60)
        except CheckError as e:
            errors.append("%s: %s" % (r["entry"], e))
            continue
        if not os.path.exists(out + ".json") or not os.path.exists(out + ".paths"):
            errors.append("engine failed on %s: %s" % (r["entry"], g.stderr[-2000:]))
            continue
        j = json.load(open(out + ".json"))
        for e in j["errors"]:
            errors.append("%s: %s" % (r["entry"], e))
        # violations first: each is confirmed on the native build
        confirmed = 0
        for line in open(out + ".paths"):
            st, ins, _, detail = line.rstrip("\n").split("|", 3)
            if st == "ok":
                continue
            if confirmed >= 3:
                break
            nst, ntxt = native_one(replay, r["entry"], params, ins)
            if st == "limit" and nst == "ok":
                errors.append("%s: step limit at inputs %s, which the native build finishes" % (r["entry"], ins))
                continue
            if nst in ("ok", "assume", "starved"):
                errors.append("%s: engine reports %s %s at inputs %s, native says %s" % (r["entry"], st, detail, ins, nst))
                continue
            confirmed += 1
            rp = os.path.join(HERE, "evidence", "replay", "%s-%d.txt" % (pid, len(viols) + 1))
            what = r.get("asserts", {}).get(detail if st == "viol" else st, "")
            with open(rp, "w") as h:
                h.write("property %s (%s)\nentry %s\nparams %s\ninputs %s\nengine: %s %s %s\nnative build: %s\n%s\nreplay: %s %s %s --one %s\n" % (
                    pid, META[pid]["title"], r["entry"], ",".join(map(str, params)), ins, st, detail, what, nst, ntxt, replay, r["entry"],
                    ",".join(map(str, params)), ins))
            viols.append(rp)
        n, bad = replay_all(replay, r["entry"], params, out + ".paths")
        if bad and not viols:
            # A result that differs between two native runs of one input is itself a violation where
            # the property promises a deterministic result.
            m = re.match(r"DISAGREE in=(\S*) ", bad[0])
            res = {native_one(replay, r["entry"], params, m.group(1))[1] for _ in range(8)} if m else set()
            if len(res) > 1 and p.get("deterministic"):
                rp = os.path.join(HERE, "evidence", "replay", "%s-%d.txt" % (pid, len(viols) + 1))
                with open(rp, "w") as h:
                    h.write("property %s\nentry %s\nparams %s\ninputs %s\nnative results differ between runs:\n%s\n" % (
                        pid, r["entry"], ",".join(map(str, params)), m.group(1), "\n".join(sorted(res))))
                viols.append(rp)
            else:
                errors += bad[:3]
        cov["traces_validated_against_impl"] += n
        if j["paths"] == 0:
            errors.append("%s: no path reaches the end" % r["entry"])
        if not viols and not errors:
            for w in r.get("reach", []):
                if str(w) not in j["reach"]:
                    errors.append("%s: witness %s not reached" % (r["entry"], w))
        if "900" in j["reach"]:
            errors.append("%s: something in the generated code is not understood" % r["entry"])
        for k in known:
            if j["reach"].get(str(1000 + k["flag"])):
                knowns[k["flag"]] = k
        cov["states"] += j["paths"]
        cov["transitions"] += j["instructions"]
        for a in ("queries", "query_unsat", "query_sat", "query_cache_hits", "asserts", "symbolic_asserts"):
            cov[a] += j[a]
        cov["solver_s"] = round(cov["solver_s"] + j["solver_s"], 3)
        funcs |= {demangle(f) for f in j["functions"]}
        cov["entries"].append({"entry": r["entry"], "bounds": r["bounds"], "params": params, "paths": j["paths"],
                               "assume_killed": j["assume_killed"], "instructions": j["instructions"],
                               "symbolic_branches": j["symbolic_branches"], "queries": j["queries"],
                               "solver_s": j["solver_s"], "wall_s": j["wall_s"], "status": j["status"], "witnesses": j["reach"]})
        with open(out + ".paths") as h:
            ls = h.read().splitlines()
        for l in ls[len(ls) // 2:len(ls) // 2 + 2]:
            c = l.split("|", 3)
            cov["samples"].append({"entry": r["entry"], "path_condition_model": c[1], "status": c[0],
                                   "output": bytes.fromhex(c[2]).decode("latin1")[:400]})
        for f in glob.glob(out + ".*"):
            os.remove(f)
        if viols:
            break
    cov["functions"] = sorted(f for f in funcs if "genco" in f or "relative_path" in f)[:400]
    cov["functions_encoded"] = len(funcs)
    cov["states_are"] = "feasible paths of the compiled code, each covering all input values of its path condition"
    cov["transitions_are"] = "LLVM instructions executed symbolically"
    cov["solver"] = "z3 4.8.12 (QF_ABV bit-vector queries through libz3)"
    cov["exhaustive"] = not errors
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": p.get("assumptions", []) + [
              "LLVM IR of an optimised build (opt-level 2, overflow checks on, panic=abort) represents the code; every explored path is also run on a native build (opt-level 1, unwinding) and compared",
              "allocation never fails"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viols), "build_s": round(build_s, 2)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    for k in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for v in viols:
        print("VIOLATION property=%s replay=%s" % (pid, v))
        print(open(v).read())
    if viols:
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR " + e, file=sys.stderr)
        return 3
    print("%s held: %d paths, %d instructions, %d queries (%.1f s solver), %d traces replayed, %.1f s (build %.1f s)" % (
        pid, cov["states"], cov["transitions"], cov["queries"], cov["solver_s"], cov["traces_validated_against_impl"],
        time.time() - t0, build_s))
    return 0


def main():
    a = sys.argv[1]
    if a == "--list":
        print("\n".join(PROPS))
        return 0
    if a == "--setup":
        must([build_engine(), "--selftest", "3000"])
        return 0
    try:
        if a == "--all":
            rc = 0
            for pid in PROPS:
                rc |= check(pid)
            return rc
        return check(a)
    except CheckError as e:
        print("ERROR %s" % e, file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main())
