#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  -- decide one property by symbolic execution of the real code.

1. compile /repo (working tree) + the property's harnesses to one optimised LLVM bitcode module,
2. execute the harnesses symbolically (engine `symx`, Z3), every input within the stated bounds,
3. replay sampled paths and every counterexample natively against the real crate,
4. write evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not answer.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
sys.path.insert(0, V)
from jobs import PROPS  # noqa: E402

TARGET = os.path.join(V, "target")
# properties whose bitcode is built with the in-memory stand-in for async-std's files
STANDIN = ("C20",)
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"):
    ENV.pop(k, None)


def die(msg, code=2):
    print("ERROR:", msg)
    sys.exit(code)


def sh(cmd, env=None, cwd=None, log=None, timeout=850):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode(errors="replace")[-6000:])
        die("command failed: %s" % " ".join(cmd))
    return p.stdout


def spawn(cmd, env, cwd):
    return subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def src_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in (".git", "target", "tests", "examples", "benches"))
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml")) or root.startswith(REPO + "/src"):
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def build_engine():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "engine"))
    sh(["cargo", "build", "--release", "--offline", "--quiet"], env, os.path.join(V, "engine"))
    return os.path.join(TARGET, "engine", "release", "symx")


def bc_dir(prop):
    return os.path.join(TARGET, "bc20" if prop in STANDIN else "bc")


def build_target(kind, prop, shash):
    """Start the build of the harnesses (`bc`: LLVM bitcode) or of the native replay binary (`nat`)."""
    d = bc_dir(prop) if kind == "bc" else os.path.join(TARGET, kind)
    os.makedirs(d, exist_ok=True)
    env = dict(ENV, CARGO_TARGET_DIR=d)
    crate = "harness" if kind == "bc" else "replay"
    cwd = os.path.join(V, crate + ("20" if kind == "bc" and prop in STANDIN else ""))
    flags = "-C no-vectorize-loops -C no-vectorize-slp" if kind == "bc" else ""
    env["RUSTFLAGS"] = flags
    stamp = os.path.join(d, "repo.sha256")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    pk = ["-p", crate]
    if old != shash:
        pk += ["-p", "http-types"]
    # what depends on /repo is always rebuilt from the current tree
    subprocess.run(["cargo", "clean", "--release", "--offline"] + pk, env=env, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in glob.glob(os.path.join(d, "release", "deps", "*" + crate + "*")):
        try:
            os.remove(f)
        except OSError:
            pass
    if os.path.exists(stamp):
        os.remove(stamp)
    cmd = ["cargo", "rustc", "--release", "--offline", "--quiet"]
    cmd += ["--lib"] if kind == "bc" else []
    cmd += ["--", "--cap-lints", "allow", "--cfg", 'p="%s"' % prop]
    if kind == "bc":
        cmd += ["--cfg", "sx_sym", "-C", "save-temps"]
    return spawn(cmd, env, cwd), stamp


def llvm_dis():
    c = sorted(glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/llvm-dis")))
    c += sorted(glob.glob("/usr/local/rustup/toolchains/stable-*/lib/rustlib/*/bin/llvm-dis"))
    r = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, stdout=subprocess.PIPE)
    if r.returncode == 0:
        c = sorted(glob.glob(r.stdout.decode().strip() + "/lib/rustlib/*/bin/llvm-dis")) + c
    if not c:
        die("llvm-dis not found")
    return c[0]


class Native:
    def __init__(self, path):
        self.path = path

    def batch(self, items, timeout=120):
        """items: (entry, args, values) -> list of (outcome, detail, hex) or None where the process died."""
        inp = "".join("%s\t%s\t%s\n" % (e, ",".join(map(str, a)), ",".join(map(str, v))) for e, a, v in items)
        try:
            p = subprocess.run([self.path], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limit)
            out = p.stdout.decode(errors="replace")
            dead = "process died (status %s)" % p.returncode
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b"").decode(errors="replace")
            dead = "no result within %d s" % timeout
        res = [tuple(l.split("\t")) for l in out.split("\n") if l.count("\t") == 2]
        if len(res) < len(items):
            if len(items) == 1:
                return [("dead", dead, "")]
            res = res + [("dead", dead, "")] if len(items) == 1 else res
            k = len(res)
            res += self.batch([items[k]], min(timeout, 20))
            if k + 1 < len(items):
                res += self.batch(items[k + 1:], timeout)
        return res


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def show(vals):
    b = bytes(int(v) & 255 for v in vals)
    return {"values": [int(v) for v in vals], "as_text": b.decode("latin-1") if all(int(v) < 256 for v in vals) else None}


def agree(sym, nat):
    """same outcome and same observable output?"""
    o = {"panic": "expected-panic"}.get(sym["outcome"], sym["outcome"])
    if o == "assume":
        return nat[0] == "assume"
    return nat[0] == o and nat[2] == sym["out"]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev_path = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    lock = open(os.path.join(TARGET, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    limit_s = 840 if tier == "quick" else 6 * 3600

    shash = src_hash()
    pb, sb = build_target("bc", prop, shash)
    pn, sn = build_target("nat", prop, shash)
    symx = build_engine()
    for p, st, what in ((pb, sb, "bitcode"), (pn, sn, "native replay")):
        o, _ = p.communicate()
        if p.returncode != 0:
            sys.stdout.write(o.decode(errors="replace")[-6000:])
            die("%s build failed" % what)
        open(st, "w").write(shash)
    bcs = [f for f in glob.glob(os.path.join(bc_dir(prop), "release", "deps", "harness*.rcgu.bc")) if "no-opt" not in f]
    if len(bcs) != 1:
        die("expected one bitcode module, found %s" % bcs)
    ll = os.path.join(TARGET, prop + ".ll")
    sh([llvm_dis(), bcs[0], "-o", ll])
    build_s = time.time() - T0

    jobs = cfg[tier] if tier in cfg and cfg[tier] else cfg["quick"]
    total = sum(j[2] for j in jobs)
    avail = limit_s - build_s - 60
    scale = min(1.0, avail / max(1, total))
    out = os.path.join(TARGET, prop + ".out.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [symx, ll, "--out", out, "--samples", "96" if tier == "quick" else "400", "--timeout-ms", str(cfg.get("timeout_ms", 20000))]
    cmd += ["--max-instr", str(cfg.get("max_instr", 50_000_000)), "--workers", str(cfg.get("workers", min(8, os.cpu_count() or 8)))]
    for j in jobs:
        cmd += ["--job", "%s:%s:%d" % (j[0], ",".join(map(str, j[1])), max(5, int(j[2] * scale)))]
    p = subprocess.run(cmd, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL)
    sys.stdout.write(p.stderr.decode(errors="replace")[-8000:])
    if p.returncode != 0 or not os.path.exists(out):
        die("symbolic engine failed (status %d)" % p.returncode)
    res = json.load(open(out))
    os.remove(ll)

    nat = Native(os.path.join(TARGET, "nat", "release", "replay"))
    # -- validate the symbolic runs against the real code
    items, refs = [], []
    for j in res["jobs"]:
        for s in j["samples"]:
            items.append((j["entry"], j["args"], s["input"]))
            refs.append((j, s))
    if os.environ.get("SX_DUMP"):  # for measuring which lines the sampled inputs reach
        with open(os.path.join(os.environ["SX_DUMP"], prop + ".tsv"), "w") as f:
            for e, a, v in items:
                f.write("%s\t%s\t%s\n" % (e, ",".join(map(str, a)), ",".join(map(str, v))))
    got = nat.batch(items) if items else []
    validated, mismatches = 0, []
    for (j, s), g in zip(refs, got):
        if agree(s, g):
            validated += 1
        else:
            mismatches.append((j["entry"], j["args"], s, g))
    # -- confirm violations
    confirmed, spurious = [], []
    vitems, vrefs = [], []
    for j in res["jobs"]:
        for v in j["violations"]:
            vitems.append((j["entry"], j["args"], v["input"]))
            vrefs.append((j, v))
    for it, (j, v) in zip(vitems, vrefs):
        if len(confirmed) >= 12:
            break
        g = nat.batch([it], 20)[0]
        ok = g[0] in ("assert", "panic", "dead", "missing-panic")
        (confirmed if ok else spurious).append((j, v, g))
    problems = []
    incomplete = []
    for j in res["jobs"]:
        tag = "%s%s" % (j["entry"], j["args"])
        if j["errors"]:
            incomplete.append("%s: %s" % (tag, j["errors"][:3]))
        elif not j["exhausted"]:
            incomplete.append("%s: time budget reached with %d pending prefixes" % (tag, j["pending"]))
        elif j["done"] + j["expected_panics"] == 0 and not j["violations"]:
            problems.append("%s completed no path" % tag)
    if not any(j["done"] + j["expected_panics"] or j["violations"] for j in res["jobs"]):
        problems.append("no job completed a path")
    want = {(j[0], tuple(j[1])): set(j[3]) if len(j) > 3 else {1} for j in jobs}
    vacuous = []
    for j in res["jobs"]:
        miss = want[(j["entry"], tuple(j["args"]))] - set(j["covered"])
        if miss and not j["violations"]:
            vacuous.append("%s%s: reachability witness %s not reached" % (j["entry"], j["args"], sorted(miss)))
    for m in mismatches[:5]:
        problems.append("symbolic and native runs differ: %s%s %s: symbolic %s %s, native %s" % (m[0], m[1], m[2]["input"], m[2]["outcome"], m[2]["out"][:200], m[3]))
    for j, v, g in spurious[:5]:
        problems.append("counterexample does not reproduce natively: %s%s %s %s: native %s" % (j["entry"], j["args"], v["kind"], v["input"], g))

    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("status") == "open" and k["property"] == prop]
    lines, viols = [], 0
    seen = set()
    for n, (j, v, g) in enumerate(confirmed):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "entry": j["entry"], "args": j["args"], "input": show(v["input"]), "kind": v["kind"], "engine": v["why"],
                   "native_outcome": g[0], "native_detail": g[1],
                   "replay": "printf '%s\\t%s\\t%s\\n' | %s" % (j["entry"], ",".join(map(str, j["args"])), ",".join(v["input"]), nat.path)}, open(path, "w"), indent=1)
        viols += 1
        key = (j["entry"], v["kind"], v["id"], g[1])
        if key in seen:
            continue
        seen.add(key)
        lines.append("VIOLATION property=%s replay=%s   # %s%s %s: %s; input %r" % (prop, path, j["entry"], j["args"], g[0], g[1], show(v["input"])))
    # known findings are established by their own witness, run natively against the current tree
    for k in known:
        g = nat.batch([(k["entry"], k["args"], k["input"])], 20)[0]
        if g[0] in ("assert", "panic", "dead", "missing-panic"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    fns = sorted({f for j in res["jobs"] for f in j["functions"]})
    samples = []
    for j in res["jobs"]:
        for s in j["samples"][:3]:
            samples.append({"entry": j["entry"], "args": j["args"], "input": show(s["input"]), "outcome": s["outcome"]})
    S = lambda k: sum(j[k] for j in res["jobs"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the compiled code (optimised LLVM IR of http-types, its dependencies and std, regenerated from /repo on this run). A state is one completed symbolic path (a class of inputs); a transition is one symbolic branch decision.",
            "states": S("paths"), "transitions": S("decisions"),
            "traces_validated_against_impl": validated,
            "samples": samples[:24],
            "exhaustive": all(j["exhausted"] for j in res["jobs"]),
            "bounds": cfg["bounds"].get(tier) or cfg["bounds"]["quick"] if isinstance(cfg["bounds"], dict) else cfg["bounds"],
            "outside": cfg.get("outside", ""),
            "jobs": [{k: j[k] for k in ("entry", "args", "exhausted", "paths", "done", "assumed", "expected_panics", "decisions", "instructions", "queries", "sat", "unsat", "unknown", "solver_s", "max_query_s", "unary_domain_decisions", "interval_decisions", "query_cache_hits", "asserts_solver", "asserts_on_path", "wall_s", "pending")} for j in res["jobs"]],
            "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "solver_s": round(S("solver_s"), 3),
            "domain_decisions": S("unary_domain_decisions") + S("interval_decisions"),
            "instructions": S("instructions"),
            "solver": "Z3 " + res["z3"],
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "incomplete": incomplete, "vacuous": vacuous, "build_s": round(build_s, 1),
        },
        "assumptions": [
            "rustc/LLVM compile the source faithfully to the IR that is executed symbolically; the native replays use the same compiler",
            "the engine's IR semantics (validated on this run by replaying %d sampled paths natively, %d agreeing)" % (len(items), validated),
            "malloc never fails; HashMap keys and the clock are fixed constants; no CPU-specific code paths",
        ] + cfg.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1), "violations": viols,
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    for l in lines:
        print(l)
    for i in incomplete:
        print("INCOMPLETE:", i)
    for i in vacuous:
        print("VACUOUS:", i)
    print("%s %s: paths %d, decisions %d, queries %d (%.1f s), natively validated %d/%d, exhaustive %s, %.0f s" % (prop, tier, S("paths"), S("decisions"), S("queries"), S("solver_s"), validated, len(items), ev["coverage"]["exhaustive"], time.time() - T0))
    if lines:
        sys.exit(1)
    if problems or (vacuous and ev["coverage"]["exhaustive"]):
        for p in problems + vacuous:
            print("ERROR:", p)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
