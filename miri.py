"""Runs modules of /verif/miri under Miri (nightly toolchain): every process explores one pseudo-random
interleaving per case and stops at any undefined behaviour, data race, deadlock or leak."""
import os, re, subprocess, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
FLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-disable-isolation -Zmiri-preemption-rate={rate} -Zmiri-seed={seed}"
PROCS = 8
CHUNK = 40
NO_ANSWER = ("unsupported operation", "resource exhaustion", "could not compile", "post-monomorphization", "error[E")


class Miri:
    def __init__(self, env, left, die):
        self.left, self.die = left, die
        self.e = env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=f"{VERIF}/target/miri", XDG_CACHE_HOME=f"{VERIF}/target/mcache")
        self.e.pop("RUSTC_WRAPPER", None)
        os.makedirs(f"{VERIF}/target/miri", exist_ok=True)
        p = self.cargo(["miri", "setup"], 900)
        if p.returncode != 0:
            print((p.stdout + p.stderr)[-4000:])
            die("cargo miri setup failed")

    def cargo(self, args, limit, flags="", echo=False):
        e = dict(self.e, MIRIFLAGS=flags)
        if echo:
            e["VERIF_ECHO"] = "1"
            e["MIRIFLAGS"] += " -Zmiri-env-forward=VERIF_ECHO"
        return subprocess.run(["cargo"] + args, cwd=f"{VERIF}/miri", env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                              timeout=max(10, min(limit, self.left())))

    def prog(self, args, seed, rate="0.1", limit=300, echo=False):
        """Returns (stdout, stderr, exit code or None when it does not end)."""
        try:
            p = self.cargo(["miri", "run", "--offline", "-q", "--"] + [str(a) for a in args], limit, FLAGS.format(seed=seed, rate=rate), echo)
        except subprocess.TimeoutExpired as x:
            s = lambda b: (b.decode(errors="replace") if isinstance(b, bytes) else b) or ""
            return s(x.stdout), s(x.stderr), None
        return p.stdout, p.stderr, p.returncode


def diagnose(out, err, rc):
    """(kind, what) of a failed run, or None."""
    if rc == 0:
        return None
    m = re.search(r"^FAIL \S+ (\w+) (.*)$", out, re.M)
    if m:
        return m.group(1), m.group(2)
    if rc is None:
        return "Content", "the case does not end"
    m = re.search(r"^error: (.*)$", err, re.M)
    if m:
        w = re.sub(r"alloc\d+", "alloc", m.group(1))
        w = re.sub(r"0x[0-9a-f]+", "0x..", w)
        at = re.search(r"-->\s+(\S+)|in .*? at (\S+:\d+)", err[m.end():])
        site = re.search(r"(/repo/src/\S+?):(\d+)", err[m.end():])
        where = site.group(1) if site else (at.group(1) or at.group(2) if at else "")
        return ("Content" if "deadlock" in w else "Memory"), f"{w} ({where})"
    return "Panic", f"the process ended with {rc}: {err.strip().splitlines()[-1] if err.strip() else ''}"


def tape_of(mi, module, seed, case, mseed):
    out, _, _ = mi.prog(["run", module, seed, case, 1], mseed, echo=True)
    return [int(x) for x in re.findall(r"^D (\d+)$", out, re.M)]


def fails(mi, module, tape, seeds, kind):
    for s in seeds:
        r = mi.prog(["tape", module, ",".join(map(str, tape))], s, limit=60)
        d = diagnose(*r)
        if d and d[0] == kind and not any(x in d[1] for x in NO_ANSWER):
            return s, d, r
    return None


def shrink(mi, module, tape, seeds, kind, found, ex, until):
    best = (tape, found)
    n = max(1, len(tape) // 2)
    while n >= 1 and time.time() < until:
        cands = []
        for i in range(0, len(best[0]), n):
            cands.append(best[0][:i] + best[0][i + n:])
            if any(best[0][i:i + n]):
                cands.append(best[0][:i] + [0] * min(n, len(best[0]) - i) + best[0][i + n:])
        hit = False
        for k in range(0, len(cands), PROCS):
            if time.time() > until:
                break
            batch = cands[k:k + PROCS]
            for t, f in zip(batch, ex.map(lambda t: fails(mi, module, t, seeds, kind), batch)):
                if f and len(t) <= len(best[0]):
                    best = (t, f)
                    hit = True
                    break
            if hit:
                break
        if not hit:
            n //= 2
    return best


def report(pid, mi, module, tape, ms, d, r, seeds, ex, replays, left, case, fallback):
    """Shrinks a failing case, writes its replay file and returns the violation."""
    f = fails(mi, module, tape, seeds, d[0]) if tape else None
    if f:
        tape, f = shrink(mi, module, tape, seeds, d[0], f, ex, time.time() + min(75, max(0, left() - 60)))
        d, r = f[1], f[2]
    key = hashlib.sha256(f"{module} {d[0]} {re.sub('[0-9]+', '#', d[1])}".encode()).hexdigest()[:8]
    path = f"{replays}/{pid}-miri-{module}-{key}.replay"
    with open(path, "w") as o:
        o.write(f"property {pid}\nvariant miri\nmodule {module}\nkind {d[0]}\nwhat {d[1]}\n{case}\n")
        if f:
            t = ",".join(map(str, tape))
            o.write(f"tape {t}\nreplay: cd /verif/miri && MIRIFLAGS='{FLAGS.format(seed=f[0], rate='0.1')}' cargo +nightly miri run -- tape {module} {t}\n")
        else:
            o.write(f"replay: {fallback}\n")
        o.write("output:\n" + r[0][-4000:] + "\n" + r[1][max(0, r[1].find("\nerror")):][:8000])
    return {"module": module, "kind": d[0], "what": d[1][:400], "replay": path}


def run_corpus(pid, exe, dirs, budget, passes, longest, kinds, mi, work, replays, left, die):
    """Cases of the part before, chosen to reach every edge it reached, within `budget` counted steps."""
    t0 = time.time()
    p = subprocess.run([exe, "cover", dirs, str(passes)], stdout=subprocess.PIPE, text=True, timeout=left())
    if p.returncode != 0:
        die("choosing the cases for Miri failed")
    lines, steps, edges = [], 0, 0
    for l in p.stdout.splitlines():
        w = l.split(" ")
        if int(w[0]) <= longest and steps + int(w[0]) <= budget:
            lines.append(l)
            steps += int(w[0])
            edges += int(w[1])
    st = {"module": "corpus", "planned": len(lines), "evaluations": 0, "distinct_nontrivial": 0, "foreign_failures": 0, "processes": 0, "samples": [], "steps": steps, "edges": edges,
          "rule": "under Miri, the cheapest cases which the parts before found to reach each edge of the code; non-trivial by the rule of their module"}
    res = {"modules": [st], "violations": []}
    cost = [(0, i) for i in range(PROCS)]
    part = [[] for _ in cost]
    for l in sorted(lines, key=lambda l: -int(l.split(" ", 1)[0])):
        c, i = min(cost)
        part[i].append(l)
        cost[i] = (c + int(l.split(" ", 1)[0]) + 400, i)
    seen, failure = set(), None

    def one(i):
        """Runs a list of cases; a failure by undefined behaviour ends a process."""
        got, at = [], 0
        while at < len(part[i]):
            f = f"{work}/miri-{i}"
            with open(f, "w") as o:
                o.write("".join(l + "\n" for l in part[i][at:]))
            out, err, rc = mi.prog(["list", f], 1, "0", limit=max(60, left() - 90))
            got.append((at, out, err, rc))
            cases = [int(x) for x in re.findall(r"^CASE (\d+)$", out, re.M)]
            if rc == 0 or rc is None or not cases or re.search(r"^FAIL", out, re.M) or kinds == "all" or len(got) > 5:
                break
            d = diagnose(out, err, rc)
            if d and d[0] in kinds.split("+"):
                break
            at += cases[-1] + 1
        return i, got

    with ThreadPoolExecutor(PROCS) as ex:
        for i, got in ex.map(one, range(PROCS)):
            for at, out, err, rc in got:
                st["processes"] += 1
                cases = [int(x) for x in re.findall(r"^CASE (\d+)$", out, re.M)]
                done = {}
                for l in out.splitlines():
                    w = l.split(" ", 4)
                    if w[0] == "OK":
                        st["evaluations"] += 1
                        done[int(w[1])] = 1
                        if w[2] == "1":
                            seen.add(w[3])
                if rc == 0:
                    continue
                if not cases or (rc is not None and any(x in err for x in NO_ANSWER) and "FAIL" not in out):
                    print(err[-3000:])
                    die("Miri cannot run this")
                for m in re.finditer(r"^FAIL (\d+) (\w+) (.*)$", out, re.M):
                    if kinds != "all" and m.group(2) not in kinds.split("+"):
                        st["foreign_failures"] += 1
                    elif not failure:
                        failure = (part[i][at + int(m.group(1))], (m.group(2), m.group(3)), (out, err, rc))
                last = cases[-1]
                if last in done or re.search(rf"^FAIL {last} ", out, re.M):
                    continue
                if rc is None and left() < 120:
                    continue  # no time left, not a case which does not end
                d = diagnose(re.sub(r"^FAIL.*$", "", out, flags=re.M), err, rc)
                if d and (kinds == "all" or d[0] in kinds.split("+")):
                    failure = failure or (part[i][at + last], d, (out, err, rc))
                else:
                    st["foreign_failures"] += 1
        if failure:
            l, d, r = failure
            w = l.split(" ")
            tape = [int(x) for x in w[3].split(",") if x]
            res["violations"].append(report(pid, mi, w[2], tape, 1, d, r, [1], ex, replays, left, f"a case of {w[0]} counted steps", f"the case {l}"))
    for l in lines[:2] + lines[-2:]:
        st["samples"].append("tape of " + " ".join(l.split(" ")[2:])[:300])
    st["distinct_nontrivial"] = len(seen)
    st["wall_s"] = round(time.time() - t0, 1)
    return res


def run(pid, mods, seed, work, replays, env, left, die, exe=None):
    mi = Miri(env, left, die)
    if mods[0][0] == "corpus":
        _, (budget, passes, longest), kinds = mods[0]
        return run_corpus(pid, exe, f"{work}/cov", budget, passes, longest, kinds, mi, work, replays, left, die)
    res = {"modules": [], "violations": []}
    for module, total, kinds in mods:
        t0 = time.time()
        out, err, rc = mi.prog(["rule", module], 0, limit=800)
        if rc != 0:
            print(err[-6000:])
            die("building or starting the Miri program failed")
        st = {"module": module, "rule": out.strip(), "planned": total, "evaluations": 0, "distinct_nontrivial": 0, "foreign_failures": 0, "processes": 0, "samples": []}
        seen, failure = set(), None
        jobs = [(k, min(CHUNK, total - k), seed * 100003 + k // CHUNK) for k in range(0, total, CHUNK)]

        def one(j):
            # every other process uses a lower preemption rate
            if failure or left() < 150:
                return j, None
            for _ in range(2):
                r = mi.prog(["run", module, seed, j[0], j[1]], j[2], "0.1" if j[2] % 2 else "0.02", limit=900)
                if "CASE" in r[0] or r[2] == 0:
                    break
            return j, r

        with ThreadPoolExecutor(PROCS) as ex:
            for j, r in ex.map(one, jobs):
                if r is None or failure:
                    continue
                out, err, rc = r
                st["processes"] += 1
                for l in out.splitlines():
                    w = l.split(" ", 4)
                    if w[0] == "OK":
                        st["evaluations"] += 1
                        if w[2] == "1":
                            seen.add(w[3])
                        if len(w) > 4 and w[4].strip() and len(st["samples"]) < 5:
                            st["samples"].append(w[4])
                if rc == 0:
                    continue
                if rc is not None and any(x in err for x in NO_ANSWER) and "FAIL" not in out:
                    print(err[-3000:])
                    die("Miri cannot run this")
                # the cases which may be at fault
                cases = [int(x) for x in re.findall(r"^CASE (\d+)$", out, re.M)]
                marked = [int(x) for x in re.findall(r"^FAIL (\d+) ", out, re.M)]
                done = [int(x) for x in re.findall(r"^OK (\d+) ", out, re.M)]
                sus = marked or [c for c in cases if c not in done] or cases
                rate = "0.1" if j[2] % 2 else "0.02"
                for c in sus:
                    r1 = mi.prog(["run", module, seed, c, 1], j[2], rate)
                    d = diagnose(*r1)
                    src, reproduced = (r1, True) if d else (r, False)
                    d = d or (diagnose(*r) if len(sus) == 1 else None)
                    if d is None:
                        continue
                    if kinds != "all" and d[0] not in kinds.split("+"):
                        st["foreign_failures"] += 1
                        continue
                    failure = (c, d, src, j[2], rate, reproduced)
                    break
                if not failure and not marked and not cases:
                    print(err[-4000:])
                    die(f"Miri did not run the cases from {j[0]} (exit {rc})")
                if not failure and not marked and len(sus) > 1:
                    d = diagnose(*r)
                    if kinds == "all" or d[0] in kinds.split("+"):
                        failure = (j[0], d, r, j[2], rate, False)
            if failure:
                c, d, r, ms, rate, rep = failure
                tape = tape_of(mi, module, seed, c, ms)
                seeds = [ms] + [ms + 7919 * i for i in range(1, 6 if module == "threads" else 1)]
                fl = FLAGS.format(seed=ms, rate=rate)
                back = f"cd /verif/miri && MIRIFLAGS='{fl}' cargo +nightly miri run -- run {module} {seed} {c if rep else 0} {1 if rep else CHUNK}"
                res["violations"].append(report(pid, mi, module, tape, ms, d, r, seeds, ex, replays, left, f"case seed {seed} number {c} miri-seed {ms} rate {rate}", back))
        st["distinct_nontrivial"] = len(seen)
        st["wall_s"] = round(time.time() - t0, 1)
        res["modules"].append(st)
    return res
