#!/usr/bin/env python3
"""Driver: build the harness of one property from /repo's current tree, explore it, write evidence.

usage: check.py <property> [quick|thorough]        (default tier: $VERIF_TIER or quick)
       check.py --replay <replay file>             (re-run one recorded counterexample, verbosely)

exit 0: the property held on everything explored      exit 1: VIOLATION (printed)
exit 2: the check itself could not run (build failure, internal error)
"""
import concurrent.futures as cf, glob, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from props import PROPS, VARIANTS, COMMON_WRAPS  # noqa: E402

CC = "gcc"
CFLAGS = ["-g", "-O1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-omit-frame-pointer", "-w", "-D_GNU_SOURCE", "-std=gnu11"]
ASAN = ["-fsanitize=address"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:fast_unwind_on_malloc=1",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=99", LC_ALL="C", TZ="UTC")


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_all(jobs):
    """jobs: list of (src, obj, flags)"""
    def one(j):
        src, obj, flags = j
        r = run([CC, "-c", src, "-o", obj] + CFLAGS + flags)
        return (src, r)
    with cf.ThreadPoolExecutor(8) as ex:
        for src, r in ex.map(one, jobs):
            if r.returncode != 0:
                raise BuildError("compiling %s failed:\n%s" % (src, r.stdout))


def build(part, bdir):
    """Build one harness part against /repo's working tree; returns the binary path."""
    var = VARIANTS[part["variant"]]
    san = part.get("san", ASAN)
    rsan = part.get("repo_san", san)
    inc = ["-I" + os.path.join(REPO, d) for d in var["include"]] + ["-I" + H]
    tag = hashlib.sha1(json.dumps([part["variant"], rsan, part.get("repo_defs", [])]).encode()).hexdigest()[:8]
    odir = os.path.join(bdir, "repo-" + tag)
    lib = os.path.join(odir, "librepo.a")
    if not os.path.exists(lib):
        os.makedirs(odir, exist_ok=True)
        jobs, objs = [], []
        for pat in var["sources"]:
            for src in sorted(glob.glob(os.path.join(REPO, pat))):
                if os.path.basename(src) in var.get("exclude", []):
                    continue
                obj = os.path.join(odir, src[len(REPO) + 1:].replace("/", "_") + ".o")
                jobs.append((src, obj, inc + var["defs"] + part.get("repo_defs", []) + rsan))
                objs.append(obj)
        if not jobs and var["sources"]:
            raise BuildError("no sources found under %s" % REPO)
        compile_all(jobs)
        r = run(["ar", "rcs", lib] + objs)
        if r.returncode:
            raise BuildError(r.stdout)
    hdir = os.path.join(bdir, "h-" + hashlib.sha1((part["harness"] + tag + json.dumps(part.get("defs", []))).encode()).hexdigest()[:10])
    exe = os.path.join(hdir, "harness")
    if not os.path.exists(exe):
        os.makedirs(hdir, exist_ok=True)
        srcs = [part["harness"], part.get("kernel", "mc.c")] + part.get("extra", [])
        jobs, objs = [], []
        for s in srcs:
            obj = os.path.join(hdir, s.replace("/", "_") + ".o")
            jobs.append((os.path.join(H, s), obj, inc + var["defs"] + part.get("defs", []) + san))
            objs.append(obj)
        compile_all(jobs)
        wraps = ["-Wl,--wrap=" + w for w in COMMON_WRAPS + part.get("wraps", [])]
        r = run([CC, "-o", exe] + objs + san + wraps + ["-Wl,--start-group", lib, "-Wl,--end-group"] + var.get("libs", []) + ["-lpthread"])
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stdout)
    return exe


def read_rec(path):
    with open(path, "rb") as f:
        d = f.read()
    magic, ln, failed, _ = struct.unpack_from("<IIII", d, 0)
    msg = d[16:16 + 1024].split(b"\0")[0].decode(errors="replace")
    ch = struct.unpack_from("<%dH" % 4096, d, 16 + 1024)
    return list(ch[:ln]), msg if failed else ""


def known_findings():
    """key -> text of the findings that are listed (recorded, not repaired)"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                w = line[7:].split(None, 2)
                out[(w[0].split("=", 1)[1], w[1].split("=", 1)[1])] = w[2] if len(w) > 2 else ""
    return out


def explore(pid, part, exe, tier, bdir, idx):
    """Run all shards of one part. Returns (stats, failure or None)."""
    n = part.get("shards", 16)
    stop = threading.Event()
    procs, lock = set(), threading.Lock()
    stats = {"executions": 0, "transitions": 0, "pruned": 0, "max_depth": 0, "counters": {}, "samples": []}
    states = set()
    over = [0]
    failure = []
    wdir = os.path.join(bdir, "run-%d" % idx)
    os.makedirs(wdir, exist_ok=True)
    limit = part.get("timeout", 840 if tier == "quick" else 5400)
    t_end = time.time() + limit

    def base_cmd():
        c = [exe, "--tier", "1" if tier == "thorough" else "0"]
        if part.get("part"):
            c += ["--part", part["part"]]
        return c

    def one(i):
        if stop.is_set():
            return
        rec, out, st = (os.path.join(wdir, "%s.%d" % (k, i)) for k in ("rec", "out", "st"))
        err = open(os.path.join(wdir, "err.%d" % i), "w+b")
        p = subprocess.Popen(base_cmd() + ["--rec", rec, "--out", out, "--states", st, "--shard", str(i), "--nshards", str(n)],
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=ENV, cwd=wdir)
        with lock:
            procs.add(p)
        try:
            p.wait(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            with lock:
                procs.discard(p)
                if not stop.is_set():
                    failure.append(("timeout", i, None, "time limit reached before the exploration was complete"))
            stop.set()
            return
        with lock:
            procs.discard(p)
        if stop.is_set() and p.returncode < 0:
            return
        if p.returncode == 0:
            o = json.load(open(out))
            with lock:
                stats["executions"] += o["executions"]; stats["transitions"] += o["transitions"]; stats["pruned"] += o["pruned"]
                stats["max_depth"] = max(stats["max_depth"], o["max_depth"])
                for k, v in o["counters"].items():
                    stats["counters"][k] = stats["counters"].get(k, 0) + v
                for s in o["samples"]:
                    if len(stats["samples"]) < 4 and s not in stats["samples"]:
                        stats["samples"].append(s)
                d = open(st, "rb").read()
                if len(states) < 20000000:
                    states.update(struct.unpack("<%dQ" % (len(d) // 8), d))
                else:
                    over[0] += len(d) // 8
            for f in (rec, out, st):
                os.unlink(f)
            return
        err.seek(0)
        text = err.read()[-6000:].decode(errors="replace")
        kind = "internal" if p.returncode == 3 else "fail"
        with lock:
            if not stop.is_set() or kind == "fail":
                failure.append((kind, i, rec, text + ("" if p.returncode >= 0 else "\nkilled by signal %d" % -p.returncode)))
        stop.set()
        with lock:
            for q in procs:
                q.kill()

    with cf.ThreadPoolExecutor(part.get("workers", 8)) as ex:
        list(ex.map(one, range(n)))
    stats["states"] = len(states)
    if over[0]:
        stats["states_uncounted_duplicates_possible"] = over[0]
    fails = [f for f in failure if f[0] == "fail"] or failure
    return stats, (fails[0] if fails else None), base_cmd()


def confirm(pid, part, tier, cmd, rec, text, evdir):
    """Turn a failing record into a replay artefact and re-run it: a failure must reproduce."""
    choices, msg = read_rec(rec)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s.replay" % (pid, part.get("part") or "main"))
    body = "# property %s part %s tier %s\n# %s\n" % (pid, part.get("part", ""), tier, (msg or "crash").replace("\n", " "))
    body += " ".join(map(str, choices)) + "\n"
    with open(path, "w") as f:
        f.write(body)
    r = subprocess.run(cmd + ["--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=ENV, timeout=300)
    out = r.stdout.decode(errors="replace")
    with open(path, "w") as f:
        f.write(body)
        f.write("".join("# " + l + "\n" for l in out.splitlines()[:400]))
        f.write("# ---- first report\n" + "".join("# " + l + "\n" for l in text.splitlines()[:80]))
    ok = r.returncode not in (0, 3)
    return ok, path, msg, out


def selftest():
    """The exploration kernel must enumerate a tree of known size completely and find a planted failure."""
    bdir = tempfile.mkdtemp(prefix="vp-self-")
    try:
        part = dict(harness="h_selftest.c", variant="none", part="count", extra=[])
        exe = build(part, bdir)
        stats, fail, cmd = explore("self", part, exe, "quick", bdir, 0)
        if fail or stats["executions"] != 4 * 27 + 2 * 4 + 5 or stats["states"] != 36 + 1 + 2:
            print("selftest: enumeration is wrong", stats, fail); return 2
        part = dict(part, part="find")
        stats, fail, cmd = explore("self", part, exe, "quick", bdir, 1)
        if not fail or fail[0] != "fail" or read_rec(fail[2])[0] != [1, 2, 0, 1]:
            print("selftest: a planted failure was not found", stats, fail); return 2
        print("selftest ok")
        return 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__); return 2
    if args[0] == "--selftest":
        return selftest()
    if args[0] == "--replay":
        head = open(args[1]).readline().split()
        pid, pn, tier = head[2], head[4] if head[3] == "part" and head[4] != "tier" else "", head[-1]
        part = [p for p in PROPS[pid]["parts"] if p.get("part", "") == pn][0]
        bdir = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        try:
            exe = build(part, bdir)
            c = [exe, "--tier", "1" if tier == "thorough" else "0"] + (["--part", pn] if pn else [])
            return subprocess.run(c + ["--replay", args[1]], env=ENV).returncode
        finally:
            shutil.rmtree(bdir, ignore_errors=True)
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    P = PROPS[pid]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    violations, known_seen = [], {}
    total = {"executions": 0, "transitions": 0, "states": 0}
    parts_ev, samples = [], []
    rc = 0
    known = known_findings()
    try:
        for idx, part in enumerate(P["parts"]):
            if tier == "quick" and part.get("thorough_only"):
                continue
            t1 = time.time()
            exe = build(part, bdir)
            stats, fail, cmd = explore(pid, part, exe, tier, bdir, idx)
            name = part.get("part") or os.path.splitext(part["harness"])[0]
            if fail:
                kind, i, rec, text = fail
                if kind != "fail":
                    print("ERROR: property=%s part=%s: %s" % (pid, name, text)); rc = 2
                    break
                ok, path, msg, out = confirm(pid, part, tier, cmd, rec, text, evdir)
                if not ok:
                    print("ERROR: property=%s part=%s: failure did not reproduce: %s\n%s" % (pid, name, msg, text)); rc = 2
                    break
                print("part %s: %s" % (name, msg or "crash / sanitizer report"))
                print("\n".join(out.splitlines()[-60:]))
                print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
                violations.append({"part": name, "what": msg or "crash", "replay": path})
                rc = 1
                break
            for k in stats["counters"]:
                if k.startswith("KNOWN:"):
                    known_seen[k[6:]] = known_seen.get(k[6:], 0) + stats["counters"][k]
            for k in ("executions", "transitions", "states"):
                total[k] += stats[k]
            samples += stats["samples"]
            parts_ev.append({"part": name, "harness": part["harness"], "variant": part["variant"], "bounds": part["bounds"][tier] if isinstance(part.get("bounds"), dict) else part.get("bounds", ""),
                             "executions": stats["executions"], "transitions": stats["transitions"], "states": stats["states"],
                             "max_choices_in_one_execution": stats["max_depth"], "outcomes": stats["counters"], "wall_s": round(time.time() - t1, 2)})
            print("%s/%s: executions=%d transitions=%d states=%d %.1fs" % (pid, name, stats["executions"], stats["transitions"], stats["states"], time.time() - t1), flush=True)
        if rc == 0:
            for k in sorted(known_seen):
                if (pid, k) in known:
                    print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, k)]))
                else:
                    path = os.path.join(VERIF, "replays", "%s-%s.txt" % (pid, k))
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    open(path, "w").write("unlisted finding %s\n" % k)
                    print("VIOLATION property=%s replay=%s" % (pid, path))
                    violations.append({"what": "unlisted finding " + k}); rc = 1
    except BuildError as e:
        print("ERROR: property=%s build failed: %s" % (pid, e)); rc = 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P["level"],
          "coverage": {"states": total["states"], "transitions": total["transitions"],
                       "traces_validated_against_impl": total["executions"],
                       "samples": samples[:12], "exhaustive": rc == 0, "parts": parts_ev,
                       "how": "stateless exhaustive enumeration of the real code: one execution of the implementation per complete choice sequence of the bounded space; "
                              "states = distinct canonical (state, observation) hashes recorded by the harness; transitions = choices taken",
                       "known_findings_seen": known_seen},
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
