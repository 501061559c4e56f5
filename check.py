#!/usr/bin/env python3
"""check.py <property>: builds the harness against /repo's working tree, runs the modules which
decide the property, writes evidence/<property>.json, and exits 0 (held), 1 (VIOLATION) or 2 (error).
Usage: check.py C01 | check.py --setup"""
import fcntl, json, os, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from plan import PLAN, TITLES  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NIGHTLY = "nightly-2025-03-06"
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()
LIMIT = 800 if TIER == "quick" else 6 * 3600


def left():
    return max(20, LIMIT - (time.time() - T0))


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "RUST", "CARGO_TARGET", "CARGO_ENCODED", "ASAN", "LSAN", "MIRI"))}
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
    e.update(kw)
    return e


def die(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


def build(variant, features, work):
    """Builds one variant of the harness and returns the path of a private copy of the binary."""
    target = f"{VERIF}/target/{variant}"
    os.makedirs(target, exist_ok=True)
    e = env(CARGO_TARGET_DIR=target)
    cmd = ["cargo", "build", "--quiet", "--offline", "--features", ",".join(features)]
    d = f"{VERIF}/harness"
    out = f"{target}/debug/harness"
    if variant == "cov":
        pass
    elif variant == "rel":
        # as a user's release build: no overflow checks, no debug assertions
        e.update(CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false")
    elif variant == "safe":
        cmd[-1] += ",safe"
    elif variant == "asan":
        cmd[-1] += ",asan"
        cmd += ["--release", "--target", HOST]
        e["RUSTFLAGS"] = "-Zsanitizer=address"
        out = f"{target}/{HOST}/release/harness"
    elif variant == "noalloc":
        d = f"{VERIF}/noalloc"
        cmd = ["cargo", "build", "--quiet", "--offline"] + (["--features", ",".join(features)] if features else [])
        out = f"{target}/debug/noalloc"
    else:
        die(f"unknown variant {variant}")
    with open(f"{target}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left())
        except subprocess.TimeoutExpired:
            die(f"building {variant} took too long")
        if p.returncode != 0:
            print(p.stdout[-6000:])
            die(f"building the {variant} variant failed")
        exe = f"{work}/harness-{variant}"
        shutil.copy2(out, exe)
    return exe


def run_modules(pid, variant, exe, mods, work, replays, corpus):
    args = [f"{m}:{n}:{k}" for m, n, k in mods]
    e = env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=64")
    if corpus:
        e["VERIF_CORPUS"] = "1"
    try:
        p = subprocess.run([exe, "check", pid, variant, str(SEED), f"{work}/{variant}", replays] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left())
    except subprocess.TimeoutExpired:
        die(f"{variant} modules of {pid} took too long")
    try:
        return json.loads(p.stdout)
    except ValueError:
        print(p.stdout[-2000:], p.stderr[-4000:])
        die(f"{variant} modules of {pid} gave no result (exit {p.returncode})")


def known(pid):
    """Known findings: 'known: property=<id> match=<substring of the failure> <text>'."""
    r = []
    for l in open(f"{VERIF}/KNOWN_FINDINGS.txt"):
        if l.startswith(f"known: property={pid} "):
            k = l.split("match=", 1)[1].split("::", 1)
            r.append((k[0].strip(), k[1].strip()))
    return r


def main(pid):
    plan = PLAN[pid]
    work = f"{VERIF}/target/work/{pid}.{os.getpid()}"
    replays = f"{VERIF}/replays"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(replays, exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "parts": []}
    rules, viol, known_hits = [], [], []
    kn = known(pid)
    exe = None
    for part in plan:
        variant = part["variant"]
        tier = "quick" if TIER == "quick" else "thorough"
        if tier not in part:
            continue
        if variant == "miri":
            if viol:
                continue  # already broken
            import miri
            r = miri.run(pid, part[tier], SEED, work, replays, env, left, die, exe)
        else:
            mods = part[tier]
            exe = build(variant, part["features"], work)
            r = run_modules(pid, variant, exe, mods, work, replays, part["corpus"])
        for m in r["modules"]:
            cov["evaluations"] += m["evaluations"]
            cov["distinct_nontrivial"] += m["distinct_nontrivial"]
            rules.append(f"[{variant}/{m['module']}] {m['rule']}")
            for s in m.pop("samples", [])[:3]:
                s = s if isinstance(s, str) else json.dumps(s)
                cov["samples"].append(f"[{variant}/{m['module']}] " + (s if len(s) <= 700 else s[:700] + " ..."))
            m.pop("rule")
            m["variant"] = variant
            m["kinds_counted"] = next((k for n, _, k in part[tier] if n == m["module"]), "all") if variant not in ("miri", "build") else "all"
            cov["parts"].append(m)
        for v in r["violations"]:
            hit = next((t for k, t in kn if k in v["what"]), None)
            if hit:
                known_hits.append(hit)
                continue
            v["variant"] = variant
            viol.append(v)
    cov["rule"] = " || ".join(dict.fromkeys(rules))
    cov["samples"] = cov["samples"][:24]
    shutil.rmtree(work, ignore_errors=True)
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
        "coverage": cov,
        "assumptions": ["the reference models and oracles in /verif/harness/src", "the toolchain and the dependencies in harness/Cargo.lock", "the generated cases: no claim beyond what was explored"],
        "wall_s": round(time.time() - T0, 2), "violations": len(viol),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    tmp = f"{VERIF}/evidence/.{pid}.{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{pid}.json")
    for t in dict.fromkeys(known_hits):
        print(f"KNOWN-FINDING: property={pid} {t}")
    for v in viol:
        print(f"[{v['variant']}/{v['module']}] {v['kind']}: {v['what']}")
        print(f"VIOLATION property={pid} replay={v['replay']}")
    print(f"{pid}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {len(viol)} violations, {ev['wall_s']} s", flush=True)
    return 1 if viol else 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        subprocess.run(["cargo", "fetch", "--offline", "--locked"], cwd=f"{VERIF}/harness", env=env(), check=False)
        sys.exit(0)
    sys.exit(main(sys.argv[1]))
