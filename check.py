#!/usr/bin/env python3
"""Runtime-monitoring runner.

  check.py <ID> [--tier quick|thorough] [--seed N]     decide one property
  check.py --replay FILE                               re-run one reported case
  check.py --setup                                     tool check (setup_cmd)
  check.py --list

Builds the drivers of the property from /repo's working tree, runs them under the
sanitizers, collects what the monitors observed, matches violations with
known_findings.txt, writes evidence/<ID>.json.
Exit: 0 held / 1 VIOLATION / 2 error or inconclusive.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, struct, importlib, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
NCPU = min(8, os.cpu_count() or 1)

LIBS = "-lcfitsio -llapack -lgsl -lgslcblas -lm -lwcs -lfftw3 -pthread".split()
BASE = ("-std=c++14 -w -g1 -pipe -DNO_LIBUNWIND -DNO_LIBDWARF -DNO_REFLECTION "
        "-fno-omit-frame-pointer -Wl,--wrap=exit").split() + [
        "-I", os.path.join(VERIF, "lib"), "-I", os.path.join(REPO, "include")]
VARIANTS = {
    "asan": ["-O1", "-D_GLIBCXX_SANITIZE_VECTOR", "-fsanitize=address,undefined",
             "-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute,alignment,pointer-overflow",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2"],
    # every function, including the accessors of std::atomic, calls hooks that delay the thread at random (lib/vh.hpp)
    "noise": ["-O0", "-finstrument-functions", "-DVH_NOISE"],
}

from registry import PROPS  # noqa: E402


class HarnessError(Exception):
    pass


def compile_driver(src, variant, out, extra=()):
    cmd = ["g++"] + BASE + VARIANTS[variant] + list(extra) + [os.path.join(VERIF, "drivers", src), "-o", out] + LIBS
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise HarnessError("cannot build %s [%s]:\n%s" % (src, variant, p.stdout[-4000:]))


def compile_tool(name, out):
    """A command line tool of the repository, as its own program."""
    flags = [f for f in BASE if not f.startswith("-Wl,--wrap")]
    cmd = ["g++"] + flags + VARIANTS["asan"] + [os.path.join(REPO, "tools", name, name + ".cpp"), "-o", out] + LIBS
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise HarnessError("cannot build the tool %s:\n%s" % (name, p.stdout[-4000:]))


def env_for(variant, logbase):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=86:detect_leaks=0:detect_odr_violation=0:log_path=%s.asan:"
                         "allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0"
                         % logbase)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=86:log_path=%s.asan" % logbase
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=86:log_path=%s.tsan:second_deadlock_stack=1" % logbase
    e["LC_ALL"] = "C"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e


def read_cur(outdir):
    try:
        b = open(os.path.join(outdir, "cur"), "rb").read()
        case, scen = struct.unpack_from("<Qi", b, 0)
        note = b[12:].split(b"\0", 1)[0].decode("latin1")
        return case, scen, note
    except Exception:
        return None


def san_log(logbase):
    txt = ""
    d = os.path.dirname(logbase)
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(logbase) + "."):
            p = os.path.join(d, f)
            txt += open(p, errors="replace").read()
            os.remove(p)
    return txt


def crash_kind(rc, log):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", log)
    if m:
        return "tsan-" + m.group(1).replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]*)", log)
    if m:
        t = re.sub(r"[0-9.+-]*\d[0-9.e+-]*", "N", m.group(1))
        return "ubsan-" + re.sub(r"[^A-Za-z]+", "-", t)[:60].strip("-")
    if rc < 0:
        return "signal-%d" % -rc
    return "exit-%d" % rc


def run_shard(exe, variant, scens, seed, tier, shard, nshard, work, deadline, scale, wrap=()):
    """Runs one shard, restarting after a crashed case. Returns (stats list, violations, notes)."""
    outdir = os.path.join(work, "sh%d" % shard)
    os.makedirs(outdir, exist_ok=True)
    stats, viols, notes = [], [], []
    start, skips, crashes = None, [], {}
    while True:
        logbase = os.path.join(outdir, "san")
        cmd = list(wrap) + [exe, "--seed", str(seed), "--out", outdir, "--shard", str(shard), str(nshard), "--scale", str(scale)]
        if tier == "thorough":
            cmd.append("--thorough")
        for s in skips:
            cmd += ["--skip", s]
        if start:
            cmd += ["--start", start[0], str(start[1])]
        sf = os.path.join(outdir, "stats.json")
        if os.path.exists(sf):
            os.remove(sf)
        timed_out = False
        with open(os.path.join(outdir, "stdout"), "w") as so, open(os.path.join(outdir, "stderr"), "w") as se:
            p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=env_for(variant, logbase),
                                 cwd=outdir, start_new_session=True)
            try:
                rc = p.wait(timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                timed_out = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                rc = p.wait()
        log = san_log(logbase)
        if timed_out:
            notes.append("inconclusive: shard %d of %s did not finish in its time" % (shard, os.path.basename(exe)))
            break
        if os.path.exists(sf):
            try:
                stats.append(json.load(open(sf)))
            except Exception:
                pass
        if rc == 0 and os.path.exists(sf):
            break
        cur = read_cur(outdir)
        if cur is None or cur[1] < 0 or cur[1] >= len(scens):
            raise HarnessError("driver %s failed without a case: rc=%s log=%s stderr=%s" % (
                exe, rc, log[-1500:], open(os.path.join(outdir, "stderr"), errors="replace").read()[-1500:]))
        case, si, note = cur
        name = scens[si]
        err = open(os.path.join(outdir, "stderr"), errors="replace").read()[-600:]
        if rc in (-signal.SIGALRM,):
            # a hang is only believed after the case alone hangs again, with twice the time
            r2 = replay_case(exe, variant, seed, tier, name, case, os.path.join(work, "re%d" % shard), wrap)
            if r2["rc"] == -signal.SIGALRM:
                viols.append(dict(key=name + ":hang", scen=name, index=case, seed=seed,
                                  detail="no return after 75 s, and again alone after 150 s", case=note))
            elif r2["rc"] != 0:
                viols.append(dict(key=name + ":crash:" + crash_kind(r2["rc"], r2["log"]), scen=name, index=case,
                                  seed=seed, detail=(r2["log"] or err)[:1500], case=note))
            else:
                notes.append("case %s/%d was slow but finished when run alone" % (name, case))
        elif rc == -signal.SIGKILL:
            notes.append("inconclusive: case %s/%d was killed (out of memory?)" % (name, case))
        else:
            viols.append(dict(key=name + ":crash:" + crash_kind(rc, log), scen=name, index=case, seed=seed,
                              detail=(log or err)[:3000], case=note))
        crashes[name] = crashes.get(name, 0) + 1
        if crashes[name] >= 2:
            skips.append(name)
        if sum(crashes.values()) > 12:
            break
        start = (name, case + 1)
        if name in skips:
            k = scens.index(name)
            if k + 1 >= len(scens):
                break
            start = (scens[k + 1], 0)
    vf = os.path.join(outdir, "viol.jsonl")
    if os.path.exists(vf):
        for line in open(vf, errors="replace"):
            try:
                viols.append(json.loads(line))
            except Exception:
                pass
    return stats, viols, notes


def replay_case(exe, variant, seed, tier, scen, index, outdir, wrap=()):
    os.makedirs(outdir, exist_ok=True)
    logbase = os.path.join(outdir, "san")
    cmd = list(wrap) + [exe, "--seed", str(seed), "--out", outdir, "--only", scen, "--index", str(index)]
    if tier == "thorough":
        cmd.append("--thorough")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         env=env_for(variant, logbase), cwd=outdir, start_new_session=True)
    out = p.communicate()[0].decode("latin1")
    vf = os.path.join(outdir, "viol.jsonl")
    v = open(vf, errors="replace").read() if os.path.exists(vf) else ""
    return dict(rc=p.returncode, out=out, log=san_log(logbase), viol=v)


def known_findings():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def decide(pid, tier, seed):
    t0 = time.time()
    prop = PROPS[pid]
    work = tempfile.mkdtemp(prefix="vifchk-%s-" % pid)
    budget = prop.get("budget", {}).get(tier, 780 if tier == "quick" else 6 * 3600)
    deadline = t0 + budget
    try:
        # ---- build
        jobs = []
        for d in prop["drivers"]:
            variant = d.get("variant", "asan")
            exe = os.path.join(work, os.path.splitext(d["src"])[0] + ("-" + d["tag"] if d.get("tag") else "") + "." + variant)
            jobs.append((d, variant, exe))
        seen = {}
        with ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(compile_driver, d["src"], v, exe, d.get("flags", ())) for d, v, exe in jobs if d.get("py") is None]
            tdir = os.path.join(work, "tools")
            os.makedirs(tdir)
            os.environ["VIF_TOOLS"] = tdir
            futs += [ex.submit(compile_tool, n, os.path.join(tdir, n)) for n in prop.get("tools", [])]
            for f in futs:
                f.result()
        t_build = time.time() - t0
        # ---- run
        stats, viols, notes = [], [], []
        tasks = []
        for d, variant, exe in jobs:
            if d.get("py") is None:
                out = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if out.returncode != 0:
                    raise HarnessError("driver %s --list: rc %d %s" % (exe, out.returncode, out.stderr[-1000:]))
                scens = [l.split()[0] for l in out.stdout.splitlines() if l.strip()]
                if not scens:
                    raise HarnessError("driver %s has no scenario" % exe)
                n = d.get("shards", NCPU)
                for sh in range(n):
                    tasks.append((exe, variant, scens, seed, tier, sh, n, os.path.join(work, "run-" + os.path.basename(exe)),
                                  deadline, d.get("scale", 1) * (prop.get("quick_scale", 12) if tier == "quick" else 1), d.get("wrap", ())))
        owner = {}
        with ThreadPoolExecutor(prop.get("parallel", NCPU)) as ex:
            futs = [(t, ex.submit(run_shard, *t)) for t in tasks]
            for t, f in futs:
                s, v, n = f.result()
                stats += s
                for x in v:
                    x["driver"] = os.path.basename(t[0])
                    x["tier"] = tier
                viols += v
                notes += n
        for d, variant, exe in jobs:
            if d.get("py"):
                mod = importlib.import_module(d["py"])
                s, v, n = mod.run(pid, tier, seed, os.path.join(work, "py-" + d["py"]), deadline)
                stats += s
                viols += v
                notes += n
        # ---- verdict
        evals = sum(s.get("evals", 0) for s in stats)
        cases = sum(s.get("cases", 0) for s in stats)
        sigs = set()
        scen, events, samples = {}, {}, []
        for s in stats:
            sigs.update(s.get("sigs", []))
            for k, v in s.get("scen", {}).items():
                scen[k] = scen.get(k, 0) + v
            for k, v in s.get("events", {}).items():
                events[k] = events.get(k, 0) + v
        for s in stats[:1]:
            for k, v in sorted(s.get("samples", {}).items()):
                for x in v[:1]:
                    samples.append({"scenario": k, "case": x})
        known = known_findings()
        fresh, hits = {}, {}
        for v in viols:
            key = v["key"]
            m = next((k for k in known if k[0] == pid and re.fullmatch(k[1], key)), None)
            if m:
                hits[m] = hits.get(m, 0) + 1
            else:
                fresh.setdefault(key, v)
        for m in sorted(hits):
            print("KNOWN-FINDING: property=%s %s" % (pid, m[2]))
        missing = [k for k in prop.get("expect_events", []) if not events.get(k)]
        inconclusive = [n for n in notes if n.startswith("inconclusive")]
        evd = {
            "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "exploration"),
            "coverage": {
                "evaluations": cases, "distinct_nontrivial": len(sigs), "rule": prop["rule"],
                "oracle_comparisons": evals, "cases_per_scenario": scen, "events_observed": events,
                "samples": samples[:40], "builds": ["%s[%s]" % (d["src"], v) for d, v, _ in jobs],
                "notes": notes[:20],
            },
            "assumptions": prop.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
            "known_findings_hit": [m[2] for m in sorted(hits)], "build_s": round(t_build, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(evd, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        rc = 0
        if fresh:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            for key, v in list(fresh.items())[:8]:
                path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
                json.dump(v, open(path, "w"), indent=1)
                print("  %s: %s\n    case: %s" % (key, v.get("detail", "")[:400], v.get("case", "")[:300]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        elif inconclusive:
            print("INCONCLUSIVE property=%s: %s" % (pid, "; ".join(inconclusive[:4])))
            rc = 2
        elif cases == 0 or evals == 0 or missing:
            print("INCONCLUSIVE property=%s: nothing observed (cases=%d, comparisons=%d, missing events %s)" % (pid, cases, evals, missing))
            rc = 2
        print("%s %s seed=%d: %d cases, %d comparisons, %d distinct, %.1f s (build %.1f s) -> %s" % (
            pid, tier, seed, cases, evals, len(sigs), time.time() - t0, t_build,
            ["held on what was observed", "VIOLATED", "inconclusive"][rc]))
        return rc
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    print(json.dumps(v, indent=1)[:4000])
    drv = v.get("driver", "")
    base, variant = drv.rsplit(".", 1)
    work = tempfile.mkdtemp(prefix="vifreplay-")
    try:
        exe = os.path.join(work, drv)
        flags, tag = (), None
        if "-" in base:
            base, tag = base.rsplit("-", 1)
        for p in PROPS.values():
            for d in p["drivers"]:
                if d["src"] == base + ".cpp" and d.get("variant", "asan") == variant and d.get("tag") == tag:
                    flags = d.get("flags", ())
        compile_driver(base + ".cpp", variant, exe, flags)
        tdir = os.path.join(work, "tools")
        os.makedirs(tdir)
        os.environ["VIF_TOOLS"] = tdir
        for p in PROPS.values():
            if any(d["src"] == base + ".cpp" and d.get("tag") == tag for d in p["drivers"]):
                for n in p.get("tools", []):
                    compile_tool(n, os.path.join(tdir, n))
        r = replay_case(exe, variant, v["seed"], v.get("tier", "quick"), v["scen"], v["index"], os.path.join(work, "o"))
        print("rc", r["rc"])
        print(r["viol"])
        print(r["log"][:4000])
        return 1 if (r["rc"] != 0 or r["viol"]) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    for t in ("g++", "python3"):
        if not shutil.which(t):
            print("missing tool:", t)
            return 2
    if not os.path.isfile(os.path.join(REPO, "include", "vif.hpp")):
        print("no sources in", REPO)
        return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    print("ok: %d properties, drivers are built by each check" % len(PROPS))
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        k = a.index("--tier"); tier = a[k + 1]; del a[k:k + 2]
    if "--seed" in a:
        k = a.index("--seed"); seed = int(a[k + 1]); del a[k:k + 2]
    try:
        if a and a[0] == "--replay":
            return replay(a[1])
        if a and a[0] == "--setup":
            return setup()
        if a and a[0] == "--list":
            print("\n".join(sorted(PROPS)))
            return 0
        if not a or a[0] not in PROPS:
            print(__doc__)
            return 2
        return decide(a[0], tier, seed)
    except HarnessError as e:
        print("HARNESS ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
