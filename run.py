#!/usr/bin/env python3
"""Builds and runs one property's harness.

  python3 run.py ID [--tier quick|thorough]      the registered check
  python3 run.py ID --replay FILE                replay one stored failing case
  python3 run.py --setup                         check that the toolchain works
Environment: VERIF_SEED, VERIF_TIER; VERIF_REPO / VERIF_BUILD / VERIF_CASES for experiments.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
HARN = os.path.join(HERE, "harness")
NCPU = 8

DEFS = ["-DHDF_NO_NAMESPACE", "-DNO_STATIC_CAST", "-DOLD_HEADER_FILENAME", "-DUSE_BOOST", "-DUSE_PTHREADS"]
H5 = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
INC = ["-I" + REPO + "/src", "-I" + REPO + "/src/Io", "-I" + REPO + "/src/Ainur", "-I" + REPO,
       "-isystem", "/usr/include/hdf5/serial"]
SAN = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all"],
       "asanonly": ["-fsanitize=address"],
       "tsan": ["-fsanitize=thread"],
       "none": []}
LIBS = {"base": ["-lblas", "-llapack", "-lpthread", "-lm"],
        "hdf5": ["-Wl,-rpath," + H5, H5 + "/libhdf5_cpp.so", H5 + "/libhdf5.so", "-lcrypto", "-lcurl", "-lsz", "-lz", "-ldl"],
        "gsl": ["-lgsl"], "gomp": ["-lgomp"]}


def sha(b):
    return hashlib.sha256(b).hexdigest()


def fsha(p):
    try:
        with open(p, "rb") as f:
            return sha(f.read())
    except OSError:
        return "missing"


class BuildError(Exception):
    pass


def compile_one(src, flags):
    cmd = ["g++", "-std=c++17", "-g1", "-w", "-pipe"] + flags + DEFS + INC + ["-I" + HARN]
    key = sha(("\0".join(cmd) + "\0" + src).encode())[:24]
    obj = os.path.join(BUILD, key + ".o")
    meta = os.path.join(BUILD, key + ".json")
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fsha(p) == h for p, h in m["deps"].items()):
                return obj
        except (ValueError, KeyError):
            pass
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        o, d = os.path.join(tmp, "o.o"), os.path.join(tmp, "o.d")
        r = subprocess.run(cmd + ["-c", src, "-o", o, "-MD", "-MF", d], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        deps = open(d).read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = [p for p in deps if p.startswith(REPO) or p.startswith(HERE)]
        json.dump({"deps": {p: fsha(p) for p in deps}}, open(os.path.join(tmp, "m.json"), "w"))
        if os.path.exists(meta):
            os.unlink(meta)
        os.replace(o, obj)
        os.replace(os.path.join(tmp, "m.json"), meta)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return obj


def config(pid):
    src = os.path.join(HARN, pid + ".cpp")
    text = open(src).read()
    cfg = {"sources": [], "libs": ["base"], "san": "asan", "opt": "-O1", "parts": [], "defs": [],
           "quick": "20000", "thorough": "400000", "qtime": "60", "ttime": "600", "attempts": "3",
           "workers": "8", "rule": ""}
    for m in re.finditer(r"^// PBT-(\w+): *(.*)$", text, re.M):
        k, v = m.group(1).lower(), m.group(2).strip()
        if k in ("sources", "libs", "parts", "defs"):
            cfg[k] = cfg[k] + v.split() if k != "libs" else ["base"] + v.split()
        elif k == "rule":
            cfg["rule"] = (cfg["rule"] + " " + v).strip()
        else:
            cfg[k] = v
    cfg["src"] = src
    return cfg


def build(pid, cfg):
    os.makedirs(BUILD, exist_ok=True)
    flags = [cfg["opt"]] + SAN[cfg["san"]] + cfg["defs"]
    srcs = [cfg["src"]] + [os.path.join(HARN, p) for p in cfg["parts"]] + \
           [os.path.join(REPO, "src", s) for s in cfg["sources"]]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags), srcs))
    libs = []
    for l in cfg["libs"]:
        libs += LIBS[l]
    link = ["g++"] + SAN[cfg["san"]] + objs + libs
    key = sha(("\0".join(link) + "".join(fsha(o) for o in objs)).encode())[:24]
    exe = os.path.join(BUILD, "%s_%s" % (pid, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run(link + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("linking failed:\n" + r.stdout[-6000:])
        os.replace(tmp, exe)
        for f in os.listdir(BUILD):  # older builds of this harness
            if re.match(re.escape(pid) + r"_[0-9a-f]{24}$", f) and f != os.path.basename(exe) \
                    and time.time() - os.path.getmtime(os.path.join(BUILD, f)) > 3600:
                os.unlink(os.path.join(BUILD, f))
    return exe


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        for tool in ("g++", "python3"):
            if not shutil.which(tool):
                print("missing " + tool)
                return 1
        print("ready")
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--replay":
            replay = os.path.abspath(args[i + 1]); i += 2
        elif args[i] == "--only":
            only = args[i + 1]; i += 2
        else:
            i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    cfg = config(pid)
    try:
        exe = build(pid, cfg)
    except BuildError as e:
        print(str(e))
        print("ERROR property=%s harness does not build" % pid)
        return 2
    tb = time.time() - t0
    env = dict(os.environ)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[k] = "1"
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        env.pop(k, None)
    scratch = tempfile.mkdtemp(prefix="pbt_%s_" % pid)
    try:
        if replay:
            return subprocess.run([exe, "replay", "--file", replay, "--scratch", scratch], env=env, cwd=scratch).returncode
        rdir = os.path.join(BUILD, "replays")
        os.makedirs(rdir, exist_ok=True)
        stats = os.path.join(scratch, "stats.json")
        cases = os.environ.get("VERIF_CASES") or cfg["quick" if tier == "quick" else "thorough"]
        tlim = cfg["qtime" if tier == "quick" else "ttime"]
        cmd = [exe, "run", "--seed", str(seed), "--cases", cases, "--time", tlim, "--out", stats,
               "--replays", rdir, "--prop", pid, "--scratch", scratch, "--attempts", cfg["attempts"],
               "--workers", cfg["workers"]]
        if only:
            cmd += ["--only", only]
        r = subprocess.run(cmd, env=env, cwd=scratch)
        if not os.path.exists(stats):
            print("ERROR property=%s harness ended with %d and no statistics" % (pid, r.returncode))
            return 2
        st = json.load(open(stats))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kn = known()
    listed = {f["key"]: f for f in kn["findings"] if f["property"] == pid}
    violations = []
    for name, msg in st["pinned"].items():
        if not msg:
            continue
        if name in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, name, listed[name]["what"]))
        else:
            rp = os.path.join(BUILD, "replays", "%s_pinned_%s.replay" % (pid, name))
            with open(rp, "w") as f:
                f.write("pinned %s\n# %s\n" % (name, msg.replace("\n", "\n# ")))
            violations.append((rp, "%s: %s" % (name, msg)))
    if st["failure"]:
        violations.append((st["failure"]["replay"], "%s: %s\n%s" % (st["failure"]["sub"], st["failure"]["msg"], st["failure"].get("input", ""))))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"],
                       "rule": cfg["rule"], "samples": st["samples"] or ["(none)"],
                       "cases_per_subproperty": st["per_sub"], "classes": st["classes"],
                       "discarded": st["discarded"],
                       "pinned_cases": {k: (v or "ok") for k, v in st["pinned"].items()},
                       "build_seconds": round(tb, 1)},
          "assumptions": ["g++ 13 with %s, assertions on; single machine" % cfg["san"],
                          "the generators reach what they reach; nothing is proved"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" %
          (pid, tier, seed, st["evaluations"], st["distinct_nontrivial"], tb, time.time() - t0))
    for rp, msg in violations:
        print(msg[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if violations:
        return 1
    if r.returncode == 4:
        # a failure that could not be reproduced is inconclusive, not a violation
        print("note: an unreproduced failure was seen (see above); counted as inconclusive")
        return 0
    if r.returncode != 0:
        print("ERROR property=%s harness ended with %d" % (pid, r.returncode))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
