#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] | run.py --replay FILE | run.py --setup

Builds the library from /repo's working tree, builds the property's exploration program against it, runs it, replays
what it reports, writes evidence/<PROPERTY>.json.  exit 0: held on everything explored; exit 1 + VIOLATION line;
exit 2: the check itself could not be carried out.
"""
import sys, os, re, json, hashlib, subprocess, time, shutil, fcntl, glob, struct, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXXFLAGS = ["-std=c++17", "-O2", "-w"]
JOBS = os.cpu_count() or 4


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def sources(suffixes=(".cc", ".cpp", ".cxx")):
    out = []
    for d, dirs, fs in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(suffixes):
                out.append(os.path.join(d, f))
    return out


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash():
    return sha(*[x for p in sources((".cc", ".cpp", ".cxx", ".h", ".hpp", ".inc")) for x in (os.path.relpath(p, REPO), rd(p))])


def compile_all(jobs):
    """jobs: list of (argv, output). Runs them in parallel; dies on failure."""
    def one(j):
        argv, out = j
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(argv + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return "%s\n%s" % (" ".join(argv), r.stdout.decode(errors="replace")[-3000:])
        os.rename(tmp, out)
        return None
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        die("compilation failed:\n" + errs[0])


def build_lib(variant="plain"):
    """Objects of the library, from the working tree. Cached by content."""
    flags = {"plain": CXXFLAGS + ["-g0"],
             "san": ["-std=c++17", "-O0", "-g1", "-w", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow",
                     "-fno-sanitize=float-divide-by-zero"],
             # every memory access of the library calls back into the check, which supplies the runtime (no TSan runtime);
             # configured for multi-threaded use as slalib.h documents
             # -O0: at -O1 a static that is only written and read back within a call is folded away, and its race with it
             "threads": ["-std=c++17", "-O0", "-g0", "-w", "-fsanitize=thread"],
             }[variant]
    cxx = "clang++" if variant == "threads" else "g++"  # clang also instruments structure copies and memset
    hdrs = sources((".h", ".hpp", ".inc"))
    hh = sha(variant, cxx, *flags, *[x for p in hdrs for x in (p, rd(p))])
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    todo, objs, copied = [], [], False
    for s in sources():
        o = os.path.join(d, sha(hh, os.path.basename(s), rd(s)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            if variant == "threads":
                td = thread_tree() if not copied else td
                copied = True
                todo.append(([cxx] + flags + ["-I", td, "-c", os.path.join(td, os.path.relpath(s, os.path.join(REPO, "src")))], o))
            else:
                todo.append(([cxx] + flags + ["-I", os.path.join(REPO, "src"), "-c", s], o))
    compile_all(todo)
    return objs


def thread_tree():
    """A copy of the sources with SLALIB_THREAD_SAFE switched on."""
    td = os.path.join(BUILD, "threads-src")
    shutil.rmtree(td, ignore_errors=True)
    for p in sources((".cc", ".cpp", ".cxx", ".h", ".hpp", ".inc")):
        q = os.path.join(td, os.path.relpath(p, os.path.join(REPO, "src")))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(re.sub(rb"(#\s*define\s+SLALIB_THREAD_SAFE\s+)0\b", rb"\g<1>1", rd(p)))
    return td


def harvest():
    """Numeric constants per source file (only used to widen input alphabets)."""
    out = os.path.join(BUILD, "lits-" + tree_hash() + ".txt")
    if os.path.exists(out):
        return out
    base = set(json.load(open(os.path.join(VERIF, "lib", "baseline_files.json"))))
    num = re.compile(r"(?<![A-Za-z_0-9.])(0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[fFlLuU]*(?![A-Za-z_0-9.])")
    res = []

    hh = sha(*[x for p in sources((".h", ".hpp", ".inc")) for x in (p, rd(p))])

    def ir(s):
        c = os.path.join(BUILD, "obj", "ir-" + sha(hh, s, rd(s)) + ".json")
        if os.path.exists(c):
            return set(json.load(open(c)))
        v = ir0(s)
        os.makedirs(os.path.dirname(c), exist_ok=True)
        with open(c + ".%d" % os.getpid(), "w") as f:
            json.dump(sorted(v), f)
        os.replace(c + ".%d" % os.getpid(), c)
        return v

    def ir0(s):
        r = subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-S", "-emit-llvm", "-I", os.path.join(REPO, "src"), s, "-o", "-"],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        vals = set()
        if r.returncode == 0:
            for line in r.stdout.decode(errors="replace").splitlines():
                if " fcmp " in line or " icmp " in line or " select " in line:
                    for m in re.finditer(r"(?<![\w%@.])(0x[0-9A-Fa-f]{16}|-?\d+\.\d+e[+-]\d+|-?\d+)(?![\w.])", line.split(";")[0]):
                        t = m.group(1)
                        v = struct.unpack(">d", bytes.fromhex(t[2:]))[0] if t.startswith("0x") else float(t)
                        vals.add(abs(v))
        return vals

    files = sources((".cc", ".cpp", ".cxx", ".h", ".hpp", ".inc"))
    with ThreadPoolExecutor(JOBS) as ex:
        irs = list(ex.map(lambda f: ir(f) if f.endswith((".cc", ".cpp", ".cxx")) else set(), files))
    for s, v in zip(files, irs):
        text = rd(s).decode(errors="replace")
        text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
        text = re.sub(r"//[^\n]*", " ", text)
        text = re.sub(r"#\s*include[^\n]*", " ", text)
        allv, cmpv = set(), set()
        for line in text.split("\n"):
            ns = set()
            for m in num.finditer(line):
                try:
                    ns.add(float(int(m.group(1), 16)) if m.group(1)[:2].lower() == "0x" else float(m.group(1)))
                except ValueError:
                    pass
            allv |= ns
            if re.search(r"\bif\b|\bwhile\b|\bfor\b|\?|<|>|==|!=|\bcase\b", line):
                cmpv |= ns
        vals = set(v) | (allv if len(allv) <= 60 else (cmpv if len(cmpv) <= 200 else set()))
        name = os.path.basename(s) if os.path.relpath(s, REPO) in base and s.endswith(".cc") else "*"
        if name == "*" and os.path.relpath(s, REPO) in base:
            continue  # the two public headers of the baseline carry no behaviour of their own
        for x in sorted(vals):
            if x == x and abs(x) < 1e300:
                res.append("%s %s" % (name, repr(x)))
    tmp = out + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write("\n".join(res) + "\n")
    os.rename(tmp, out)
    return out


def build_check(pid):
    src = os.path.join(VERIF, "checks", pid + ".cc")
    variant = "plain"
    m = re.search(r"//\s*VARIANT:\s*(\w+)", rd(src).decode())
    if m:
        variant = m.group(1)
    m = re.search(r"//\s*FLAGS:\s*(.*)", rd(src).decode())
    extra = m.group(1).split() if m else []
    objs = build_lib(variant)
    hdrs = sorted(glob.glob(os.path.join(VERIF, "lib", "*.h")) + glob.glob(os.path.join(VERIF, "lib", "*.inc")) + glob.glob(os.path.join(VERIF, "checks", "*.h")))
    repoh = sources((".h", ".hpp", ".inc"))
    key = sha(pid, variant, *extra, rd(src), *[x for p in hdrs + repoh for x in (p, rd(p))])
    os.makedirs(BUILD, exist_ok=True)
    ho = os.path.join(BUILD, "h-%s-%s.o" % (pid, key))
    san = ["-fsanitize=address,undefined"] if variant == "san" else []
    if not os.path.exists(ho):
        compile_all([(["g++", "-std=c++17", "-O2", "-g0", "-w"] + san + extra + ["-I", os.path.join(VERIF, "lib"), "-I", os.path.join(REPO, "src"), "-c", src], ho)])
    exe = os.path.join(BUILD, "x-%s-%s" % (pid, sha(key, *objs)))
    if not os.path.exists(exe):
        compile_all([(["g++"] + san + (objs + [ho] if variant == "threads" else [ho] + objs) + ["-lpthread", "-ldl"], exe)])
    return exe


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) .get("known", []) if k["property"] == pid]


def prune():
    """keep the cache small"""
    ents = []
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            try:
                ents.append((os.path.getmtime(p), os.path.getsize(p), p))
            except OSError:
                pass
    ents.sort(reverse=True)
    tot = 0
    for m, s, p in ents:
        tot += s
        if tot > 800e6 and time.time() - m > 3600:
            try:
                os.unlink(p)
            except OSError:
                pass


def meta(pid):
    m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == pid:
            return c
    return {"level": "model_checking", "level_note": "", "technique": ""}


def run_exe(cmd, env, timeout=None):
    """Run a check program in a process group of its own and leave nothing of it behind, also when a library call hangs."""
    out = os.path.join(BUILD, "out-%d.txt" % os.getpid())
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
    rc = None
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        pass
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    txt = rd(out).decode(errors="replace")
    os.unlink(out)
    return rc, txt


def replay_one(exe, env, name, index):
    rc, out = run_exe([exe, "--case", name, str(index)], env, 60)
    return (-9, "no progress for 60 s") if rc is None else (rc, out)


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = build_check(pid)
        litf = harvest()
        prune()
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    tb = time.time()
    env = dict(os.environ, VERIF_TIER=tier, VERIF_LITS=litf, VERIF_SEED=str(seed), LC_ALL="C", VERIF_REPO=REPO, VERIF_DIR=VERIF)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:handle_segv=0")
    env.setdefault("UBSAN_OPTIONS", "print_stacktrace=0:abort_on_error=1")
    resf = os.path.join(BUILD, "res-%s-%d.json" % (pid, os.getpid()))
    rc, out = run_exe([exe, "--out", resf], env)
    if rc or not os.path.exists(resf):
        die("exploration program failed (%s): %s" % (rc, out[-2000:]))
    res = json.load(open(resf))
    os.unlink(resf)
    doms = res["domains"]
    states = sum(d["covered"] for d in doms)
    fails = res["failures"]
    kn = known(pid)
    new, old = [], []
    for f in fails:
        hit = [k for k in kn if k["domain"] == f["domain"] and re.search(k["match"], f["msg"])]
        (old if hit else new).append((f, hit))
    ed = os.path.join(VERIF, "evidence")
    rpd = os.path.join(ed, "replays")
    os.makedirs(rpd, exist_ok=True)
    violation = None
    notes = []
    for n, (f, _) in enumerate(new):
        rc, out = replay_one(exe, env, f["domain"], f["index"])
        rec = {"property": pid, "tier": tier, "kind": "case", "domain": f["domain"], "index": f["index"], "observed": f["msg"],
               "replay_output": out, "replay_cmd": "python3 run.py --replay <this file>"}
        ok = rc != 0 and rc != 2
        if not ok and f["history"]:
            h = [list(c) for c in f["history"]]
            di = [i for i, d in enumerate(doms) if d["name"] == f["domain"]][0]
            if h and h[-1][0] == di and h[-1][1] <= f["index"] < h[-1][2]:
                h[-1][2] = f["index"] + 1
            hf = os.path.join(BUILD, "hist-%d.txt" % os.getpid())
            with open(hf, "w") as g:
                g.write("".join("%d %d %d\n" % tuple(c) for c in h))
            rc, out = run_exe([exe, "--history", hf], env, 240)
            if rc is None:
                rc, out = (-9, "no progress") if "no progress" in f["msg"] else (0, "timeout")
            os.unlink(hf)
            ok = rc != 0 and rc != 2
            rec.update(kind="history", history=h, replay_output=out)
        if ok:
            path = os.path.join(rpd, "%s.json" % pid)
            with open(path, "w") as g:
                json.dump(rec, g, indent=1)
            violation = (path, f)
            break
        notes.append("not reproduced on replay: %s[%d] %s" % (f["domain"], f["index"], f["msg"]))
    m = meta(pid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": m["level"],
          "coverage": {
              "states": states,
              "transitions": sum(d["calls"] for d in doms),
              "traces_validated_against_impl": sum(d["checked"] for d in doms),
              "exhaustive": bool(res["complete"]),
              "rule": "every index of every listed domain is executed on the library built from the working tree; states = cases "
                      "(distinct input tuples / histories / schedules), transitions = library calls made, "
                      "traces_validated_against_impl = implementation results compared with the reference model",
              "evaluations": states,
              "distinct_nontrivial": states,
              "domains": [{"name": d["name"], "bounds": d["bounds"], "cases": d["covered"], "of": d["size"]} for d in doms],
              "samples": res["samples"][:40]},
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
          "assumptions": [m.get("level_note", "")] + notes}
    if not ev["coverage"]["samples"]:
        ev["coverage"]["samples"] = ["(stopped at a violation)"] if fails else ["%s: %s" % (d["name"], d["bounds"]) for d in doms[:5]]
    with open(os.path.join(ed, pid + ".json"), "w") as g:
        json.dump(ev, g, indent=1)
    print("%s %s: %d cases in %d domains, %d library calls, %d comparisons, build %.1f s, run %.1f s, complete=%s" % (
        pid, tier, states, len(doms), ev["coverage"]["transitions"], ev["coverage"]["traces_validated_against_impl"],
        tb - t0, res["wall"], res["complete"]))
    if os.environ.get("VERIF_VERBOSE"):
        for d in doms:
            print("   %-28s %12d/%d  calls %d" % (d["name"], d["covered"], d["size"], d["calls"]))
        for f, _ in new[:10]:
            print("   FAIL %s[%d]: %s" % (f["domain"], f["index"], f["msg"]))
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for x in notes[:5]:
        print("note: " + x)
    if violation:
        print("%s[%d]: %s" % (violation[1]["domain"], violation[1]["index"], violation[1]["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    if notes:
        print("ERROR: an observed failure could not be reproduced")
        return 2
    if not res["complete"] and not old:
        die("exploration incomplete")
    return 0


def replay(path):
    rec = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    exe = build_check(rec["property"])
    env = dict(os.environ, VERIF_TIER=rec["tier"], VERIF_LITS=harvest(), LC_ALL="C", VERIF_REPO=REPO, VERIF_DIR=VERIF)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:handle_segv=0")
    env.setdefault("UBSAN_OPTIONS", "print_stacktrace=0:abort_on_error=1")
    if rec["kind"] == "case":
        rc, out = replay_one(exe, env, rec["domain"], rec["index"])
    else:
        hf = os.path.join(BUILD, "hist-%d.txt" % os.getpid())
        with open(hf, "w") as g:
            g.write("".join("%d %d %d\n" % tuple(c) for c in rec["history"]))
        q = subprocess.run([exe, "--history", hf], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rc, out = q.returncode, q.stdout.decode(errors="replace")
        os.unlink(hf)
    print(out.strip())
    print("reproduced" if rc else "not reproduced")
    return 1 if rc else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_lib("plain")
        harvest()
        print("setup ok")
        sys.exit(0)
    if a[0] == "--replay":
        sys.exit(replay(a[1]))
    sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
