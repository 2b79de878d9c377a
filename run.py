#!/usr/bin/env python3
"""Runs one check:   python3 run.py check C01 [--tier quick|thorough]
   re-runs a replay: python3 run.py replay <file>
   builds:           python3 run.py setup

A check (a) extracts the functions of its proof units from /repo's current source and has Verus discharge every
obligation, (b) builds the current source with the harness modules and runs the bounded harness of the property,
(c) decides, and (d) writes evidence/<id>.json.  See DESIGN.md, "How a run is decided"."""
import concurrent.futures as cf, contextlib, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(V, "build"))
PARTIAL = "/opt/vp/partial"
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

ENV = dict(os.environ)
ENV.update(HOME="/root", RUSTUP_TOOLCHAIN="1.90", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTFLAGS="--cap-lints warn",
           RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")

SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
            "assertion not satisfied", "possible bit shift underflow/overflow", "loop invariant not satisfied",
            "recommendation not met", "cannot show", "possible index out of bounds")
LIMIT = ("resource limit", "rlimit", "timed out", "timeout")


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


@contextlib.contextmanager
def lock(name):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


# ------------------------------------------------------------------ tools
def build_vx():
    env = dict(ENV)
    env["RUSTUP_TOOLCHAIN"] = "1.90"
    env["CARGO_TARGET_DIR"] = os.path.join(B, "vx-target")
    env.pop("RUSTFLAGS", None)
    with lock("vx"):
        rc, o, e = sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", os.path.join(V, "tools/vx/Cargo.toml")], 600, env)
    if rc != 0:
        raise RuntimeError("cannot build vx: " + e[-2000:])
    return os.path.join(B, "vx-target/release/vx")


# ------------------------------------------------------------------ proof layer
def verus_run(path, extra, timeout):
    t0 = time.time()
    rc, o, e = sh(["verus", "--edition=2024", path, "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "4"] + extra, timeout)
    try:
        res = json.loads(o)
    except Exception:
        res = None
    diags = []
    for line in e.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except Exception:
                pass
    return dict(rc=rc, res=res, diags=diags, raw=e, wall=time.time() - t0)


def fn_of(fns, lines):
    for f in fns:
        if "fn" in f and any(f["start"] <= l <= f["end"] for l in lines):
            return f
    return None


def prove(unit, vx, tier):
    """Extract and verify one proof unit."""
    out = os.path.join(B, "proofs", unit + ".rs")
    js = os.path.join(B, "proofs", unit + ".json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = dict(unit=unit, status="drift", functions=[], drift=[], failures=[], obligations=0, discharged=0, solver_ms=0, vac=0, trusted=[], wall=0.0)
    with lock("proof_" + unit):
        rc, o, e = sh([vx, "extract", REPO, os.path.join(V, "proofs", unit + ".rs.in"), out, js], 60)
        if rc != 0:
            r["drift"] = [e.strip()[-600:]]
            return r
        meta = json.load(open(js))
        r["functions"] = [f"{f['file']} :: {f['fn']}" for f in meta["functions"] if "fn" in f]
        r["rewrites"] = sorted({x for f in meta["functions"] for x in f.get("rewrites", [])})
        text = open(out).read()
        r["trusted"] = trusted_items(text)
        if meta["drift"]:
            r["drift"] = meta["drift"]
            return r
        vac = out.replace(".rs", "_vac.rs")
        with cf.ThreadPoolExecutor(2) as ex:
            fa = ex.submit(verus_run, out, ["--rlimit", "60" if tier == "thorough" else "30"], 400)
            fb = ex.submit(verus_run, vac, ["--multiple-errors", "0"], 400)
            a, b = fa.result(), fb.result()
    r["wall"] = a["wall"]
    classify(r, a, meta)
    # vacuity: every precondition probe has to fail
    want = meta["vac"]
    got = sum(1 for d in b["diags"] if d.get("level") == "error" and d["message"].startswith("assertion failed"))
    r["vac"], r["vac_failed_as_required"] = want, got
    if r["status"] == "proved" and got != want:
        r["status"] = "drift"
        r["drift"].append(f"vacuity probes: {got} of {want} refuted ({first_error(b)})")
    return r


def first_error(b):
    for d in b["diags"]:
        if d.get("level") == "error" and not d["message"].startswith("assertion failed"):
            return d["message"][:200]
    return b["raw"][-200:] if not b["diags"] else ""


def classify(r, a, meta):
    vr = (a["res"] or {}).get("verification-results") or {}
    smt = ((a["res"] or {}).get("times-ms") or {}).get("smt") or {}
    fb = [f for m in smt.get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
    r["solver_ms"] = smt.get("total", 0)
    r["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
    r["discharged"] = vr.get("verified", 0)
    r["slowest"] = sorted(((f.get("time", 0), f["function"]) for f in fb), reverse=True)[:3]
    if a["rc"] == 0 and vr.get("success") and r["discharged"] > 0:
        r["status"] = "proved"
        return
    sem, other = [], []
    for d in a["diags"]:
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        m = d["message"]
        lines = [s["line_start"] for s in d["spans"]] + [s["line_end"] for s in d["spans"]]
        f = fn_of(meta["functions"], lines)
        item = dict(message=m, function=(f"{f['file']} :: {f['fn']}" if f else "(lemma or stated property)"), rendered=d.get("rendered", "")[:3000])
        low = m.lower()
        if any(k in low for k in LIMIT):
            other.append(item)
        elif any(k in low for k in SEMANTIC) and not d.get("code"):
            sem.append(item)
        else:
            other.append(item)
    if sem and not other and not vr.get("encountered-vir-error"):
        r["status"] = "failed"
        r["failures"] = sem
    else:
        r["status"] = "drift"
        r["drift"] += [f"{x['function']}: {x['message'][:300]}" for x in other] or ["verifier gave no result: " + a["raw"][-300:]]
        r["failures_besides"] = sem


def trusted_items(text):
    """Everything in the generated file that is assumed and not proved."""
    out = []
    L = text.splitlines()
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith("#[verifier::external_body]") or s.startswith("#[verifier::external"):
            for k in range(i, min(i + 4, len(L))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", L[k])
                if m:
                    out.append(f"assumed: {m.group(1)} {m.group(2)}")
                    break
        if re.search(r"\b(assume|admit)\s*\(", s) and not s.startswith("//"):
            out.append("ASSUME: " + s[:100])
        m = re.search(r"uninterp spec fn (\w+)", s)
        if m:
            out.append(f"uninterpreted: {m.group(1)}")
        m = re.search(r"\baxiom fn (\w+)", s)
        if m:
            out.append(f"axiom: {m.group(1)}")
        m = re.search(r"assume_specification.*?\[\s*([^\]]+)\]", s)
        if m:
            out.append(f"assumed specification: {m.group(1).strip()}")
    return sorted(set(out))


# ------------------------------------------------------------------ harness layer
def cargo_toml():
    s = open(os.path.join(REPO, "Cargo.toml")).read()
    s = re.sub(r"(?m)^aisle\s*=.*$", 'aisle = { path = "%s", default-features = false, features = ["row_filter"] }' % os.path.join(V, "stubs/aisle"), s)
    s = re.split(r"(?m)^\[\[", s)[0]
    return s


def write_if_changed(p, data):
    if os.path.exists(p) and open(p).read() == data:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(data)


def seed_target(tgt):
    """Reuse the sandbox's compiled dependencies (never the crate itself)."""
    dbg = os.path.join(tgt, "debug")
    if os.path.exists(os.path.join(dbg, "deps")):
        return
    src = os.path.join(PARTIAL, "crate/target/debug")
    if not os.path.isdir(src):
        return
    tmp = dbg + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    ign = shutil.ignore_patterns("tonbo-*", "libtonbo-*", "tonbo_*", "*.o", "*.dwo")
    for d in ("deps", ".fingerprint", "build"):
        shutil.copytree(os.path.join(src, d), os.path.join(tmp, d), symlinks=True, ignore=ign, copy_function=shutil.copy2)
    os.makedirs(tgt, exist_ok=True)
    os.rename(tmp, dbg)


def module_files():
    return sorted(glob.glob(os.path.join(V, "harness", "*.rs")))


def attach(path):
    for l in open(path):
        m = re.match(r"//@attach\s+(\S+)", l)
        if m:
            return m.group(1)
    raise RuntimeError("no //@attach in " + path)


def build_harness(vx, wanted):
    """Build the current source with the harness modules `wanted` (file stems). Returns dict(binary, dropped, mode)."""
    with lock("crate"):
        crate = os.path.join(B, "crate")
        stage = os.path.join(B, "stage-src")
        tgt = os.path.join(B, "target")
        seed_target(tgt)
        info = dict(binary=None, dropped={}, mode="whole crate (aisle stubbed)", error=None)
        for mode in (os.environ.get("VP_MODE") or "full sliced").split():
            shutil.rmtree(stage, ignore_errors=True)
            rc, o, e = sh([vx, "strip", os.path.join(REPO, "src"), stage], 120)
            if rc != 0:
                info["error"] = "source does not parse: " + e[-500:]
                return info
            if mode == "sliced":
                info["mode"] = "sliced crate (items needing aisle left out)"
                rc, o, e = sh([vx, "slice", stage, os.path.join(V, "stubs/omit.txt"), stage], 120)
                if rc != 0:
                    info["error"] = (info["error"] or "") + " slicing failed: " + e[-500:]
                    return info
            write_if_changed(os.path.join(crate, "Cargo.toml"), cargo_toml())
            lockf = os.path.join(crate, "Cargo.lock")
            if not os.path.exists(lockf):
                shutil.copy(os.path.join(V, "stubs/Cargo.lock"), lockf)
            drop = {}
            for attempt in range(12):
                add = {}
                for f in module_files():
                    stem = os.path.basename(f)[:-3]
                    if stem in drop or not (stem == "vp_util" or stem in wanted):
                        continue
                    name = stem if stem.startswith("vp_") else "vp_" + stem
                    vis = "pub(crate) " if stem.startswith("vp_") else ""
                    add.setdefault(attach(f), []).append(f'\n#[cfg(test)]\n#[path = "{f}"]\n{vis}mod {name};\n')
                kept = set()
                for root, _, files in os.walk(stage):
                    for fn in files:
                        rel = os.path.relpath(os.path.join(root, fn), stage)
                        kept.add(rel)
                        data = open(os.path.join(root, fn)).read()
                        data += "".join(add.get("src/" + rel, []))
                        write_if_changed(os.path.join(crate, "src", rel), data)
                for root, _, files in os.walk(os.path.join(crate, "src")):
                    for fn in files:
                        if os.path.relpath(os.path.join(root, fn), os.path.join(crate, "src")) not in kept:
                            os.remove(os.path.join(root, fn))
                env = dict(ENV)
                env["CARGO_TARGET_DIR"] = tgt
                rc, o, e = sh(["cargo", "test", "--lib", "--no-run", "--offline", "--message-format=json"], 800, env, crate)
                errs, binary = [], None
                for line in o.splitlines():
                    if not line.startswith("{"):
                        continue
                    d = json.loads(line)
                    if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
                        errs.append(d["message"])
                    if d.get("reason") == "compiler-artifact" and d.get("executable") and d["target"]["name"] == "tonbo":
                        binary = d["executable"]
                if rc == 0 and binary:
                    dst = os.path.join(B, "bin-" + hashlib.sha1(" ".join(sorted(wanted)).encode()).hexdigest()[:8])
                    shutil.copy2(binary, dst)
                    info.update(binary=dst, dropped=drop)
                    return info
                bad = {}
                for m in errs:
                    if os.environ.get("VP_DEBUG"):
                        print(m.get("rendered"))
                    for s in m["spans"]:
                        x = s
                        while x:
                            b = os.path.basename(x["file_name"])
                            if x["file_name"].startswith(os.path.join(V, "harness")) and s["is_primary"]:
                                bad.setdefault(b[:-3], m["message"][:200])
                            x = (x.get("expansion") or {}).get("span")
                bad.pop("vp_util", None)
                if not bad:
                    info["error"] = ((info["error"] or "") + f" [{mode}] build failed: " + (errs[0].get("rendered", "")[:1500] if errs else e[-1500:]))
                    break
                drop.update(bad)
        return info


def run_harness(binary, prefix, tier, seed, only=None, case=None, scale=None):
    env = dict(ENV)
    env.update(VERIF_SEED=str(seed), VP_TIER=tier)
    env["VP_SCALE"] = str(scale or (20 if tier == "thorough" else 1))
    env["VP_BUDGET"] = "600" if tier == "thorough" else "60"
    if case is not None:
        env["VP_CASE"] = str(case)
    scratch = os.path.join(B, "scratch-%d" % os.getpid())
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    env["TMPDIR"] = scratch
    t0 = time.time()
    tmo = 3000 if tier == "thorough" else 500
    try:
        what = [only] if only else list(prefix)
        rc, o, e = sh([binary, *what, "--nocapture", "--test-threads", "6"], tmo, env, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    stats, fails = [], []
    for l in o.splitlines():
        if l.startswith("VPSTAT "):
            stats.append(json.loads(l[7:]))
        elif l.startswith("VPFAIL "):
            fails.append(json.loads(l[7:]))
    ran = int((re.search(r"running (\d+) test", o) or [0, 0])[1])
    failed_names = re.findall(r"(?m)^test (\S+) \.\.\. FAILED", o) + re.findall(r"(?m)^    (\S*vp_c\S+)$", o)
    return dict(rc=rc, stats=stats, fails=fails, ran=ran, failed=sorted(set(failed_names)), wall=time.time() - t0,
                tail=(o[-1500:] + e[-1500:]) if rc else "")


# ------------------------------------------------------------------ a check
def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def listed(pid, c):
    """the known finding that this failing case is an instance of, if any"""
    return next((k for k in known_findings() if k.get("property") == pid and k.get("kind") == "known"
                 and k["test"] == c["test"] and re.search(k["match"], c["what"])), None)


def unlisted(pid, h):
    """does this harness run show a failure that is not a known finding?"""
    return h["rc"] != 0 and (not h["fails"] or any(not listed(pid, c) for c in h["fails"]))


def harness_of(pid):
    ps = tuple(q.lower() + "_" for q in [pid, *CHECKS[pid].get("also", [])])
    return [os.path.basename(f)[:-3] for f in module_files() if os.path.basename(f).startswith(ps)]


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[pid]
    vx = build_vx()
    wanted = harness_of(pid)
    common = [os.path.basename(f)[:-3] for f in module_files() if os.path.basename(f).startswith("vp_")]
    with cf.ThreadPoolExecutor(8) as ex:
        fh = ex.submit(build_harness, vx, wanted + common) if wanted else None
        fp = [ex.submit(prove, u, vx, tier) for u in cfg["units"]]
        units = [f.result() for f in fp]
        hb = fh.result() if fh else dict(binary=None, dropped={}, error=None, mode="none")
    # with the tests of the properties this one rests on
    prefix = ["vp_" + q.lower() + "_" for q in [pid, *cfg.get("also", [])]]
    h = None
    if hb["binary"]:
        h = run_harness(hb["binary"], prefix, tier, seed)
        if not unlisted(pid, h) and any(u["status"] == "failed" for u in units) and tier == "quick":
            h2 = run_harness(hb["binary"], prefix, tier, seed + 1000003, scale=6)
            if unlisted(pid, h2):
                h = h2
    lines, violations = [], []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    # concrete failing inputs on the real code
    concrete = []
    if h and h["rc"] != 0:
        concrete = list(h["fails"])
        if not concrete:
            concrete = [dict(test=",".join(h["failed"]) or prefix[0], seed=seed, case=None,
                             what="harness did not finish within its time limit" if h["rc"] == 124 else "harness run aborted (rc %d)" % h["rc"],
                             input=[h["tail"][-1500:]])]
    real = []
    for c in concrete:
        k = listed(pid, c)
        if k:
            lines.append(f"KNOWN-FINDING: property={pid} {k['summary']}")
        else:
            real.append(c)
    failed_units = [u for u in units if u["status"] == "failed"]
    if real:
        for n, c in enumerate(real):
            p = os.path.join(V, "replays", f"{pid}-{n}.json")
            json.dump(dict(property=pid, kind="failing-input", test=c["test"], seed=c["seed"], case=c["case"], what=c["what"], input=c["input"],
                           failed_obligations=[f for u in failed_units for f in u["failures"]],
                           rerun=f"python3 /verif/run.py replay {p}"), open(p, "w"), indent=1)
            violations.append(f"VIOLATION property={pid} replay={p}")
    elif failed_units:
        p = os.path.join(V, "replays", f"{pid}-obligation.json")
        json.dump(dict(property=pid, kind="failed-obligation", units=[dict(unit=u["unit"], failures=u["failures"]) for u in failed_units]), open(p, "w"), indent=1)
        violations.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    write_evidence(pid, tier, seed, cfg, units, hb, h, len(violations), time.time() - t0)
    for u in units:
        extra = "" if u["status"] == "proved" else " " + "; ".join(u["drift"])[:600]
        print(f"unit {u['unit']}: {u['status']} ({u['discharged']}/{u['obligations']} obligations, {len(u['functions'])} functions, {u['solver_ms']} ms solver){extra}")
        for f in u["failures"]:
            print(f"  failed: {f['function']}: {f['message']}")
    if h:
        print(f"harness: {h['ran']} tests, {sum(s['evaluations'] for s in h['stats'])} cases, {'ok' if h['rc'] == 0 else 'FAILED'} ({h['wall']:.1f} s, {hb['mode']})")
        for c in real:
            print(f"  {c['test']} case {c['case']}: {c['what'][:400]}")
    else:
        print("harness: not run: " + str(hb["error"])[:1500])
    for m, why in hb["dropped"].items():
        print(f"  harness module {m} left out: {why}")
    for l in lines + violations:
        print(l)
    return 1 if violations else 0


def write_evidence(pid, tier, seed, cfg, units, hb, h, nviol, wall):
    stats = h["stats"] if h else []
    proved = [u for u in units if u["status"] == "proved"]
    cov = dict(
        obligations=sum(u["obligations"] for u in units), discharged=sum(u["discharged"] for u in units),
        checker_cmd="verus --edition=2024 build/proofs/<unit>.rs (Verus 0.2026.09.13, Z3 back end)",
        trusted_base=sorted({t for u in units for t in u["trusted"]}),
        functions_under_contract=sorted({f for u in units for f in u["functions"]}),
        proof_units=[dict(unit=u["unit"], status=u["status"], obligations=u["obligations"], discharged=u["discharged"], solver_ms=u["solver_ms"],
                          vacuity_probes=u["vac"], vacuity_probes_refuted=u.get("vac_failed_as_required", 0), rewrites=u.get("rewrites", []), drift=u["drift"][:8]) for u in units],
        solver_ms=sum(u["solver_ms"] for u in units),
        fallback_bounded_only=[u["unit"] for u in units if u["status"] == "drift"],
        bounded_harness=dict(mode=hb["mode"], modules_left_out=hb["dropped"], build_error=hb["error"],
                             tests=[dict(test=s["test"], cases=s["evaluations"], distinct_nontrivial=s["distinct_nontrivial"]) for s in stats],
                             bound=cfg.get("bound", "")),
        evaluations=sum(s["evaluations"] for s in stats), distinct_nontrivial=sum(s["distinct_nontrivial"] for s in stats),
        rule=cfg.get("bound", "random cases; non-trivial as marked by each test") + "; distinct by hash of the generated input",
        samples=[dict(test=s["test"], input=s["sample"]) for s in stats if s.get("sample")][:6],
    )
    level = cfg["level"] if (proved or cfg["level"] != "proof") else "exploration"
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    d = json.load(open(path))
    print(json.dumps(d, indent=1)[:6000])
    if d["kind"] != "failing-input":
        return 1
    vx = build_vx()
    pid = d["property"]
    wanted = harness_of(pid) + [os.path.basename(f)[:-3] for f in module_files() if os.path.basename(f).startswith("vp_")]
    hb = build_harness(vx, wanted)
    if not hb["binary"]:
        print(hb["error"])
        return 2
    name = d["test"].split("::")[-1]
    h = run_harness(hb["binary"], [], "quick", d["seed"], only=name, case=d["case"])
    print(h["fails"] or h["stats"])
    return 1 if h["rc"] else 0


def main():
    if sys.argv[1] == "setup":
        vx = build_vx()
        stems = [os.path.basename(f)[:-3] for f in module_files()]
        build_harness(vx, stems)
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    return check(sys.argv[2], tier)


if __name__ == "__main__":
    sys.exit(main())
