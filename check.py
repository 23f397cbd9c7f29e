#!/usr/bin/env python3
"""Decides one property of ratel-core by symbolic execution of the real code.

  check.py C01            run the check of a property (tier from VERIF_TIER, or --thorough)
  check.py --replay FILE  run a recorded counterexample natively, against /repo's current tree
  check.py --setup        build everything once

Everything is rebuilt from /repo's working tree: the harnesses and the library are compiled to LLVM
IR, the engine executes that IR symbolically, z3 decides every path. A counterexample counts only
once it reproduces in a native build of the same code.
"""
import concurrent.futures as cf, fcntl, glob, json, os, re, resource, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from plan import PROPS  # noqa: E402

B = os.path.join(V, "build")
TC = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
FLAGS = "-C no-vectorize-loops -C no-vectorize-slp -C save-temps"


class Broken(Exception):
    pass


def sh(cmd, cwd=V, env=None, timeout=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Broken("%s failed:\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def cargo(crate, target, flags=None):
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, target))
    if flags:
        e["RUSTFLAGS"] = flags
    sh(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(V, crate), e)


def build_engine():
    cargo("engine", "engine")


def build_native():
    cargo("native", "native")


def build_sym():
    for f in glob.glob(os.path.join(B, "sym/release/deps/rssym.*")):
        os.remove(f)
    # a fresh link every time: the intermediate files are what is wanted
    for f in glob.glob(os.path.join(B, "sym/release/**/librssym*"), recursive=True):
        os.remove(f)
    for d in glob.glob(os.path.join(B, "sym/release/.fingerprint/rssym-*/*")):
        os.remove(d)
    cargo("sym", "sym", FLAGS)
    bc = [f for f in glob.glob(os.path.join(B, "sym/release/deps/rssym.*.rcgu.bc")) if "lto" not in f and "no-opt" not in f]
    if len(bc) != 1:
        raise Broken("expected one bitcode file, found %r" % bc)
    return bc[0]


def tool(name):
    root = sh(["rustc", "--print", "sysroot"]).strip()
    return os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


def lower(bc, names, out):
    """The IR of the given harnesses and everything they reach."""
    sh([tool("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(names), bc, "-o", out + ".bc"])
    sh([tool("llvm-dis"), out + ".bc", "-o", out + ".ll"])
    return out + ".ll"


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native_one(binary, name, params, inp, timeout=20):
    try:
        r = subprocess.run([binary, "one", name, ",".join(map(str, params)), inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=limits, env=ENV)
    except subprocess.TimeoutExpired:
        return "HANG (no result within %d s)" % timeout, ""
    out = r.stdout.decode("utf8", "replace")
    m = re.search(r"^OUTCOME (.*)$", out, re.M)
    if r.returncode != 0 or not m:
        return "CRASH (exit status %d) %s" % (r.returncode, r.stderr.decode("utf8", "replace")[-300:].replace("\n", " ")), out
    return m.group(1), out


def reproduce(name, params, v):
    """How a counterexample ends natively, or None where it does not fail there."""
    nat = os.path.join(B, "native/release/rsnative")
    o, out = native_one(nat, name, params, v["input"])
    if o.startswith(("CHECK-FAILED", "PANIC", "HANG", "CRASH")):
        return o, out
    if v["kind"] in ("memory", "uninit", "unreachable"):
        cargo("native-guard", "native-guard")
        g = os.path.join(B, "native-guard/release/rsnative-guard")
        o, out = native_one(g, name, params, v["input"])
        if o.startswith(("CRASH", "PANIC", "CHECK-FAILED", "HANG")):
            return "%s (allocations fenced by inaccessible pages)" % o, out
        vg = subprocess.run(["valgrind", "-q", "--error-exitcode=99", nat, "one", name, ",".join(map(str, params)), v["input"]],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=120)
        if vg.returncode == 99:
            return "valgrind: " + vg.stderr.decode("utf8", "replace")[:400].replace("\n", " "), out
    return None


def demangle(names):
    try:
        r = subprocess.run(["c++filt", "--format=rust"], input="\n".join(names), text=True, stdout=subprocess.PIPE)
        return [re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in r.stdout.split("\n")]
    except OSError:
        return names


def known(prop):
    """Findings recorded for this property: (harness, substring of the failing text, description)."""
    out = []
    p = os.path.join(V, "known_findings.json")
    if os.path.exists(p):
        for f in json.load(open(p)).get("findings", []):
            if f["property"] == prop:
                out.append(f)
    return out


def spec(r, tier):
    return "%s:%s@%s" % (r[0], ",".join(map(str, r[1])), r[2])


def check(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = P[tier] if P.get(tier) else P["quick"]
    os.makedirs(B, exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        fe, fn, fs = ex.submit(build_engine), ex.submit(build_native), ex.submit(build_sym)
        bc = fs.result()
        fe.result()
        ll = lower(bc, sorted({r[0] for r in runs}), os.path.join(B, prop))
        fn.result()
    tb = time.time() - t0
    rj, mf = os.path.join(B, prop + ".json"), os.path.join(B, prop + ".models")
    for f in (rj, mf):
        if os.path.exists(f):
            os.remove(f)
    cmd = [os.path.join(B, "engine/release/ratsym"), ll, "--threads", "8", "--out", rj, "--models", mf,
           "--max-models", str(P.get("models", 20000 if tier == "quick" else 60000)), "--stop-viol", "400", "--budget", str(P.get("budget", 20000000))]
    cmd += [spec(r, tier) for r in runs]
    limit = sum(r[2] for r in runs) + 120
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, env=ENV)
    if r.returncode != 0:
        raise Broken("engine failed:\n" + r.stdout[-3000:])
    res = json.load(open(rj))["harnesses"]
    z3v = json.load(open(rj))["z3"]
    te = time.time() - t0 - tb

    problems, tot = [], {k: 0 for k in ("paths", "dead", "insts", "decisions", "checks", "leaf_sat", "leaf_unsat", "branch_queries", "queries", "solver_time", "nviol")}
    funcs, reach, undecided, timeouts, ntags = set(), {}, [], [], 0
    per = []
    for h, rn in zip(res, runs):
        for k in tot:
            tot[k] += h[k]
        funcs.update(h["functions"])
        ntags += len(h["tags"])
        for k, n in h["reach"].items():
            reach[(h["name"], int(k))] = reach.get((h["name"], int(k)), 0) + n
        for e in h["errors"]:
            undecided.append("%s: %s" % (spec(rn, tier), e[:300]))
        if h["timeout"] and h["nviol"] < 400:
            timeouts.append(spec(rn, tier))
        per.append({"harness": h["name"], "params": h["params"], "paths": h["paths"], "assumed_away": h["dead"], "queries": h["queries"],
                    "solver_s": h["solver_time"], "wall_s": h["wall"], "completed": not h["timeout"] and not h["errors"]})

    # violations: only what reproduces natively counts
    confirmed, spurious, matched = [], [], {}
    findings = known(prop)
    seen = {}
    for h in res:
        for v in h["violations"]:
            key = (h["name"], v["kind"], v["id"], v["detail"].split(" < ")[0][:120])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 3 or len(confirmed) >= 8:
                continue
            o = reproduce(h["name"], h["params"], v)
            if o is None:
                spurious.append((h["name"], h["params"], v))
                continue
            text = o[0] + "\n" + o[1]
            f = next((f for f in findings if f["harness"] == h["name"] and f["match"] in text), None)
            if f:
                matched.setdefault(f["what"], 0)
                matched[f["what"]] += 1
                seen[key] -= 1
            else:
                confirmed.append((h["name"], h["params"], v, o))
    # the models of the paths that hold, run natively
    lines = open(mf).read().splitlines()
    nat = os.path.join(B, "native/release/rsnative")
    validated, mism = 0, []
    if not confirmed and lines:
        chunks = [lines[i::8] for i in range(8)]
        def batch(i):
            p = "%s.%d" % (mf, i)
            with open(p, "w") as f:
                f.write("\n".join(chunks[i]) + "\n")
            r = subprocess.run([nat, "batch", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, env=ENV)
            os.remove(p)
            m = re.search(r"^BATCH (\d+) (\d+)$", r.stdout, re.M)
            if not m:
                return 0, ["native validation ended early: " + (r.stdout + r.stderr)[-300:]]
            return int(m.group(1)), [x for x in r.stdout.splitlines() if x.startswith("MISMATCH")]
        with cf.ThreadPoolExecutor(8) as ex:
            for n, b in ex.map(batch, range(len([c for c in chunks if c]))):
                validated += n
                mism += b
    for (name, ids) in P.get("reach", {}).items():
        if any(r[0] == name for r in runs):
            for i in ids:
                if not reach.get((name, i)) and not confirmed:
                    problems.append("vacuous: %s never reaches point %d" % (name, i))
    if tot["leaf_sat"] == 0 and not confirmed:
        problems.append("no path was decided")
    if mism:
        problems.append("the encoding disagrees with the native build: " + mism[0][:600])
    if spurious and not confirmed:
        n, p, v = spurious[0]
        problems.append("a counterexample does not reproduce natively: %s %s %s" % (n, p, json.dumps(v)[:600]))

    samples = []
    step = max(1, len(lines) // 6)
    for l in lines[::step][:6]:
        f = l.split(" ")
        o, out = native_one(nat, f[0], [x for x in f[1].split(",") if x], f[2])
        obs = [x[8:] for x in out.splitlines() if x.startswith("observe ")]
        samples.append({"harness": f[0], "params": f[1], "solver_model": f[2], "observed": obs[:4], "outcome": o})
    dem = [d for d in demangle(sorted(funcs)) if "ratel" in d or "toolshed" in d]
    cov = {
        "states": tot["paths"], "transitions": tot["decisions"] + tot["checks"] + tot["paths"], "traces_validated_against_impl": validated,
        "samples": samples,
        "exhaustive": not timeouts and not undecided,
        "meaning": "states: path classes of the harness, each decided for every value of its symbolic bytes; transitions: branch decisions, assertions and path ends",
        "paths_assumed_away": tot["dead"], "assertions_decided": tot["checks"],
        "queries": {"all": tot["queries"], "branch_feasibility": tot["branch_queries"], "path_satisfiable": tot["leaf_sat"], "assertion_unsat": tot["leaf_unsat"]},
        "solver": z3v, "solver_time_s": round(tot["solver_time"], 2), "instructions_executed": tot["insts"],
        "bounds": P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"], "runs": per,
        "incomplete_runs": timeouts, "undecided": undecided[:10], "distinct_shapes": ntags,
        "functions_encoded": len(dem), "functions": dem,
        "build_s": round(tb, 1), "engine_s": round(te, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": P["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%.1f s solver), %d models run natively; build %.0f s, engine %.0f s%s" % (
        prop, tier, tot["paths"], tot["checks"], tot["queries"], tot["solver_time"], validated, tb, te,
        "" if cov["exhaustive"] else " (not exhaustive: %s)" % "; ".join(timeouts + undecided[:2])[:300]))
    for w, n in matched.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for i, (n, p, v, o) in enumerate(confirmed):
        path = os.path.join(V, "evidence", "%s.violation-%d.txt" % (prop, i + 1))
        with open(path, "w") as f:
            f.write("property %s\nharness %s\nparams %s\ninput %s\nkind %s %s\nengine %s\noutcome %s\n\n%s\n" % (
                prop, n, ",".join(map(str, p)), v["input"], v["kind"], v["id"], v["detail"], o[0], o[1]))
        if i == 0:
            print("%s\n%s" % (o[0], o[1][:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if confirmed:
        return 1
    for p in problems:
        print("ERROR: " + p)
    return 3 if problems else 0


def main():
    a = sys.argv[1:]
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            if a[:1] == ["--setup"]:
                with cf.ThreadPoolExecutor(3) as ex:
                    for f in [ex.submit(g) for g in (build_engine, build_native, build_sym)]:
                        f.result()
                return 0
            if a[:1] == ["--replay"]:
                d = dict(l.split(" ", 1) for l in open(a[1]).read().split("\n\n")[0].splitlines() if " " in l)
                build_native()
                o = reproduce(d["harness"], [x for x in d["params"].split(",") if x], {"input": d["input"].strip(), "kind": d["kind"].split(" ")[0]})
                print("\n".join(o) if o else "does not fail")
                return 1 if o else 0
            tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
            return check(a[0], tier)
        except Broken as e:
            print("ERROR: %s" % e)
            return 3


if __name__ == "__main__":
    sys.exit(main())
