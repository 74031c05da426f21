#!/usr/bin/env python3
"""Runs the monitors of one property.

  vrun.py <ID>                    the registered check (tier/seed from the environment)
  vrun.py <ID> --replay FILE      run again the case recorded in a replay file
  vrun.py --setup                 build everything the quick checks need

Exit 0: held (known findings are printed).  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "tools"))
import checks  # noqa: E402

NPROC = os.cpu_count() or 4

class HarnessError(Exception):
    pass

# --------------------------------------------------------------------------- build
CONFIG_DEFAULT = {
    "UM2_ENABLE_ASSERTS": 1, "UM2_ENABLE_BMI2": 1, "UM2_ENABLE_FASTMATH": 0,
    "UM2_ENABLE_FLOAT64": 1, "UM2_ENABLE_SIMD_VEC": 1, "UM2_USE_BLAS_LAPACK": 1,
    "UM2_USE_CUDA": 0, "UM2_USE_GMSH": 1, "UM2_USE_MPACT_XSLIBS": 0, "UM2_USE_HDF5": 1,
    "UM2_USE_OPENMP": 0, "UM2_USE_PUGIXML": 1}
SAN = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
LINK = ["-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial",
        "-lhdf5_cpp", "-lhdf5", "-lpugixml", "-llapacke", "-lopenblas", "-lgmsh", "-lpthread", "-lm"]
BASEFLAGS = ["-std=gnu++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-march=x86-64-v3",
             "-fno-math-errno", "-fno-trapping-math", "-fno-signed-zeros", "-w"]

def sha(*parts):
    h = hashlib.sha256()
    for x in parts:
        h.update(x if isinstance(x, bytes) else str(x).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

def read(path):
    with open(path, "rb") as f:
        return f.read()

def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for dp, dn, fn in sorted(os.walk(d)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".hpp", ".h", ".in", ".hxx")) and not dp.endswith("/um2") or \
                   f.endswith((".hpp", ".h")) and f != "config.hpp":
                    p = os.path.join(dp, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()

_cfg_cache = {}
def config_dir(over):
    key = json.dumps(over, sort_keys=True)
    if key in _cfg_cache:
        return _cfg_cache[key]
    text = read(os.path.join(REPO, "cmake", "config.hpp.in")).decode()
    vals = dict(CONFIG_DEFAULT); vals.update(over)
    def sub(m):
        if m.group(1) not in vals:
            return "#define %s 0" % m.group(1)
        return "#define %s %d" % (m.group(1), vals[m.group(1)])
    text = re.sub(r"#cmakedefine01\s+(\w+)", sub, text)
    text = text.replace("@UM2_MAX_LOG_LEVEL@", "4").replace("@MPACT_DATA@", "")
    d = os.path.join(BUILD, "cfg", sha(text))
    os.makedirs(os.path.join(d, "um2"), exist_ok=True)
    p = os.path.join(d, "um2", "config.hpp")
    if not os.path.exists(p) or read(p).decode() != text:
        with open(p + ".tmp%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    _cfg_cache[key] = d
    return d

_inc_hash = None
def compile_obj(src, variant):
    global _inc_hash
    cfg = config_dir(variant.get("config", {}))
    flags = BASEFLAGS + SAN[variant.get("san", "asan")] + variant.get("flags", [])
    inc = ["-I" + cfg, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "harness"),
           "-isystem", "/usr/include/hdf5/serial"]
    cmd = ["clang++-18"] + flags + inc
    if _inc_hash is None:
        _inc_hash = tree_hash(os.path.join(REPO, "include"))
    hh = tree_hash(os.path.join(ROOT, "harness")) if src.startswith(ROOT) else ""
    key = sha(" ".join(cmd), read(src), _inc_hash, hh, read(os.path.join(cfg, "um2", "config.hpp")), src)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise HarnessError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[:4000]))
    os.replace(tmp, obj)
    return obj

def build(run):
    """Builds the harness of a run; returns the path of the binary."""
    variant = run.get("variant", {})
    srcs = [os.path.join(ROOT, "harness", run["harness"] + ".cpp")]
    for dp, dn, fn in sorted(os.walk(os.path.join(REPO, "src"))):
        srcs += [os.path.join(dp, f) for f in sorted(fn) if f.endswith(".cpp")]
    config_dir(variant.get("config", {}))   # written once, before the compilers start
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, variant), srcs))
    key = sha(*objs)
    exe = os.path.join(BUILD, "bin", run["harness"] + "-" + key[:16])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["clang++-18"] + SAN[variant.get("san", "asan")] + objs + \
              LINK + ["-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise HarnessError("linking %s failed:\n%s" % (exe, r.stdout.decode(errors="replace")[:4000]))
        os.replace(tmp, exe)
    return exe

# --------------------------------------------------------------------------- running
def env_for(run):
    e = dict(os.environ)
    leaks = 1 if run.get("leaks") else 0
    e["ASAN_OPTIONS"] = ("halt_on_error=1:abort_on_error=0:exitcode=99:detect_leaks=%d:"
                         "detect_stack_use_after_return=1:allocator_may_return_null=0:"
                         "strict_string_checks=0:handle_abort=1:max_allocation_size_mb=2048:"
                         "hard_rss_limit_mb=3000" % leaks)
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=99:second_deadlock_stack=1:hard_rss_limit_mb=3000:suppressions=" +
                         os.path.join(ROOT, "tools", "tsan.supp"))
    e["LSAN_OPTIONS"] = "suppressions=" + os.path.join(ROOT, "tools", "lsan.supp")
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)")
def crash_key(rc, text, exe):
    """A key for a crash that names what happened and where, not on which line."""
    m = re.search(r"Assertion failed: (\S+?):\d+: (.*)", text)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), m.group(2).strip()[:80])
    if "rss limit exhausted" in text or "allocation-size-too-big" in text or "out-of-memory" in text:
        return "memory-exhausted"
    kind = None
    m = re.search(r"ERROR: (?:AddressSanitizer|LeakSanitizer): ([\w-]+)", text)
    if m:
        kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", text)
    if m2 and not kind:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m2.group(1))[:60]
    if "WARNING: ThreadSanitizer" in text:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
        kind = "tsan:" + m.group(1).strip()
    if kind:
        for f in FRAME.finditer(text):
            if f.group(2).startswith(REPO + "/"):
                fn = re.sub(r"\(.*", "", f.group(1))
                fn = re.sub(r"<[^()]*>", "", fn)
                return "%s@%s" % (kind, fn.split("::")[-1] or fn)
        return kind
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc

# Seconds without a finished case before a run counts as hanging, and the time at which runs are cut off
STALL = {"quick": 60, "thorough": 120}
LIMIT = int(os.environ.get("VERIF_LIMIT", 780))
DEADLINE = [time.time() + LIMIT]

KNOWN = []

def failed(key):
    """Something new failed: what remains is worth another minute, not the whole time."""
    if match_known(KNOWN, key) is None:
        DEADLINE[0] = min(DEADLINE[0], time.time() + 60)

def run_shard(exe, run, seed, tier, begin, end, tmp, stall, maxrestart=4):
    """Runs cases [begin,end). Restarts after a crash. Returns a result dict."""
    res = {"fails": [], "counts": {}, "nt": set(), "samples": [], "done": 0, "nfail": {}}
    cur, n = begin, 0
    while cur < end:
        n += 1
        base = os.path.join(tmp, "%s-%d-%d-%d" % (run["name"], begin, n, os.getpid()))
        out, prog, scratch = base + ".out", base + ".prog", base + ".d"
        os.makedirs(scratch, exist_ok=True)
        cmd = [exe, "--seed", str(seed), "--begin", str(cur), "--end", str(end), "--tier", tier,
               "--out", out, "--progress", prog, "--scratch", scratch] + run.get("args", [])
        log = base + ".log"
        timed_out = False
        t0 = time.time()
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env_for(run),
                                 cwd=scratch, stdin=subprocess.DEVNULL)
            # a hang is a case that does not end; a slow run is merely cut off
            last, since, cut = None, time.time(), False
            while True:
                try:
                    rc = p.wait(0.2 if time.time() - t0 < 5 else 1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                if now - t0 > 30 and os.path.exists(out):
                    for line in read(out).decode(errors="replace").split("\n")[:50]:
                        if line.startswith("FAIL\t") and line.count("\t") >= 3:
                            failed(line.split("\t")[1])
                here = read(prog)[:8] if os.path.exists(prog) else b""
                if here != last:
                    last, since = here, now
                if now - since > stall:
                    timed_out = True
                elif now > DEADLINE[0] + 30:
                    cut = True
                elif now > DEADLINE[0]:
                    cut = True
                    if os.path.exists(prog) and os.path.getsize(prog) >= 24:
                        with open(prog, "r+b") as pf:  # asks it to end after this case
                            pf.seek(16); pf.write(b"\1")
                    continue
                else:
                    continue
                p.kill(); p.wait(); rc = -9
                break
        with open(log, "rb") as lf:
            lf.seek(0, 2); size = lf.tell()
            lf.seek(max(0, size - 200000)); text = lf.read().decode(errors="replace")
        pr = read(prog) if os.path.exists(prog) else b"\0" * 24
        at = int.from_bytes(pr[0:8], "little")
        fin = int.from_bytes(pr[8:16], "little") == 1
        if os.path.exists(out):
            for line in read(out).decode(errors="replace").split("\n"):
                c = line.split("\t")
                if c[0] == "FAIL" and len(c) >= 4:
                    res["fails"].append((c[1], int(c[2]), c[3]))
                elif c[0] == "COUNT":
                    res["counts"][c[1]] = res["counts"].get(c[1], 0) + int(c[2])
                elif c[0] == "NFAIL":
                    res["nfail"][c[1]] = res["nfail"].get(c[1], 0) + int(c[2])
                elif c[0] == "NT":
                    res["nt"].add(c[1])
                elif c[0] == "SAMPLE":
                    res["samples"].append(c[1])
                elif c[0] == "DONE":
                    res["done"] += int(c[1])
        shutil.rmtree(scratch, ignore_errors=True)
        if rc == 0 and fin:
            if cut:
                res["cut"] = 1
            return res
        if cut:
            res["cut"] = 1
            res["done"] += max(0, at - cur)
            return res
        if rc == 0 and not fin:
            key, detail = "exit:0-before-finish", "the program exited while a case was running"
            m = re.search(r"Assertion failed: .*", text)
        elif timed_out:
            key, detail = "hang", "no progress for %d s" % stall
            if maxrestart:  # a slow machine is not a hang: give that case one run of its own
                r2 = run_shard(exe, run, seed, tier, at, at + 1, tmp, 2 * stall, 0)
                if not r2["fails"]:
                    res["done"] += at - cur + 1
                    cur = at + 1
                    continue
                res["fails"] += r2["fails"]
                failed(key)
                return res
        elif fin and rc != 0:
            key = crash_key(rc, text, exe)   # e.g. leak found at exit
            detail = text[:1500]
            res["fails"].append((key, at, detail.replace("\n", " | ")))
            return res
        else:
            key = crash_key(rc, text, exe)
            i = max(text.find("Assertion failed"), 0) or max(text.find("ERROR: "), 0) or \
                max(text.find("runtime error"), 0) or max(text.find("ThreadSanitizer"), 0)
            detail = text[max(0, i - 200):i + 1500] if i else text[-1500:]
        if rc in (126, 127) or "error while loading shared libraries" in text:
            raise HarnessError("cannot run %s: %s" % (exe, text[-500:]))
        failed(key)
        res["fails"].append((key, at, detail.replace("\n", " | ").replace("\t", " ")))
        res["done"] += max(0, at - cur)
        if n > maxrestart:
            return res
        cur = at + 1
    return res

def load_known(pid):
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    return known

def match_known(known, key):
    for k, desc in known:
        if k == key.replace(" ", "_"):
            return desc
    return None

def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    known = load_known(pid)
    KNOWN[:] = known
    total = {"fails": [], "counts": {}, "nt": set(), "samples": [], "done": 0}
    planned = 0
    try:
        for run in spec["runs"]:
            if run.get("tier") and run["tier"] != tier:
                continue
            if run.get("python"):
                r = run["python"](dict(run, seed=seed, tier=tier, tmp=tmp, build=build,
                                       run_shard=run_shard, env=env_for(run)))
                results = [r]
                planned += r.get("planned", r["done"])
            else:
                exe = build(run)
                n = run["cases"][1 if tier == "thorough" else 0]
                planned += n
                shards = min(run.get("shards", NPROC), max(1, n))
                bounds = [(n * i // shards, n * (i + 1) // shards) for i in range(shards)]
                with cf.ThreadPoolExecutor(NPROC) as ex:
                    futs = [ex.submit(run_shard, exe, run, seed, tier, a, b, tmp, STALL[tier]) for a, b in bounds if b > a]
                    results = [f.result() for f in futs]
            for r in results:
                total["fails"] += [(run["name"], k, c, d) for k, c, d in r["fails"]]
                for k, v in r["counts"].items():
                    total["counts"][k] = total["counts"].get(k, 0) + v
                total["nt"] |= {run["harness"] + x if run.get("harness") else x for x in r["nt"]}
                total["samples"] += [run["name"] + " " + s for s in r["samples"][:2]]
                total["done"] += r["done"]
                total["cut"] = total.get("cut", 0) + r.get("cut", 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bykey = {}
    for name, key, case, detail in total["fails"]:
        bykey.setdefault((name, key), []).append((case, detail))
    violations = []
    for (name, key), items in sorted(bykey.items()):
        desc = match_known(known, key)
        if desc is not None:
            print("KNOWN-FINDING: property=%s %s (key %s, seen %d times)" % (pid, desc, key, len(items)))
            continue
        items.sort()
        case, detail = items[0]
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (pid, sha(name, key)[:12]))
        with open(path, "w") as f:
            json.dump({"property": pid, "run": name, "key": key, "seed": seed, "tier": tier,
                       "case": case, "detail": detail, "occurrences": len(items),
                       "command": "python3 tools/vrun.py %s --replay %s" % (pid, os.path.relpath(path, ROOT))}, f, indent=1)
        violations.append((path, key, case, detail))
    if total["done"] == 0 or not total["nt"]:
        if not violations:
            raise HarnessError("nothing was observed (cases %d, non-trivial %d)" % (total["done"], len(total["nt"])))
    for c in spec.get("must_observe", []):
        if total["counts"].get(c, 0) == 0 and not violations:
            raise HarnessError("the run never observed '%s'" % c)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total["done"], "distinct_nontrivial": len(total["nt"]),
                       "rule": spec["rule"], "samples": total["samples"][:8],
                       "observed": total["counts"], "planned_cases": planned,
                       "runs_cut_off": total.get("cut", 0)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for path, key, case, detail in violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key=%s case=%d %s" % (key, case, detail[:600]))
    print("%s: %d cases, %d distinct non-trivial, %d violation keys, %.1f s" %
          (pid, total["done"], len(total["nt"]), len(violations), time.time() - t0))
    return 1 if violations else 0

def replay(pid, path):
    j = json.load(open(path))
    spec = checks.CHECKS[pid]
    run = [r for r in spec["runs"] if r["name"] == j["run"]][0]
    if run.get("python"):
        os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(j["seed"]), j["tier"]
        return check(pid)
    exe = build(run)
    tmp = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        r = run_shard(exe, run, j["seed"], j["tier"], j["case"], j["case"] + 1, tmp, 300)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for k, c, d in r["fails"]:
        print("key=%s case=%d %s" % (k, c, d))
    hit = any(k == j["key"] for k, c, d in r["fails"])
    if hit:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if hit else 0

def setup():
    seen = set()
    for pid, spec in checks.CHECKS.items():
        for run in spec["runs"]:
            if run.get("python"):
                continue
            try:
                build(run)
            except HarnessError as e:
                print("setup: %s: %s" % (pid, str(e)[:2000]))
                return 2
    return 0

def main():
    try:
        if sys.argv[1:] == ["--setup"]:
            return setup()
        if len(sys.argv) == 4 and sys.argv[2] == "--replay":
            return replay(sys.argv[1], sys.argv[3])
        return check(sys.argv[1])
    except HarnessError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == "__main__":
    sys.exit(main())
