"""Builds the decoder from /repo's working tree together with the harness.

Objects are cached by the content of everything that went into them (source, headers, flags,
compiler), so a change in the tree is always seen and an unchanged tree costs nothing."""
import fcntl, hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++-18"
COMMON = ["-DMODEM_IS_MODEMCF", "-I" + REPO, "-I/usr/include/opus", "-D_FILE_OFFSET_BITS=64", "-w", "-g0", "-pthread"]
VARIANTS = {
    "fast": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
_memo = {}


def sha_file(path):
    if path not in _memo:
        try:
            with open(path, "rb") as f:
                _memo[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _memo[path] = "missing"
    return _memo[path]


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def compile_one(job):
    src, obj, flags = job
    sig = hashlib.sha256(json.dumps([CXX, flags, src]).encode()).hexdigest()
    meta = obj + ".json"
    try:
        m = json.load(open(meta))
        if m["sig"] == sig and os.path.exists(obj) and all(sha_file(p) == h for p, h in m["deps"].items()):
            return None, obj
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    r = subprocess.run([CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode != 0:
        return "compiling %s failed:\n%s" % (src, r.stderr[-4000:]), obj
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [d for d in deps if d.startswith(REPO + "/") or d.startswith(VERIF + "/")]
    json.dump({"sig": sig, "deps": {d: sha_file(d) for d in deps}}, open(meta, "w"))
    return None, obj


def repo_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith(".cc"):
                out.append(os.path.join(root, f))
    return sorted(out)


def build(variants=("fast",), verbose=False):
    """Returns {variant: path of the harness executable}. Raises RuntimeError."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        gen = os.path.join(BUILD, "gen")
        os.makedirs(gen, exist_ok=True)
        ver = "0"
        try:
            m = re.search(r"version:\s*'([0-9.]+)',\s*\)", open(os.path.join(REPO, "meson.build")).read())
            ver = m.group(1) if m else "0"
        except OSError:
            pass
        write_if_changed(os.path.join(gen, "config.h"), '#define VERSION "%s"\n' % ver)
        jobs, out = [], {}
        H = os.path.join(VERIF, "harness")
        hsrc = [os.path.join(H, f) for f in sorted(os.listdir(H)) if f.endswith(".cc")]
        hsrc += [os.path.join(H, "checks", f) for f in sorted(os.listdir(os.path.join(H, "checks"))) if f.endswith(".cc")]
        per = {}
        for v in variants:
            vf = VARIANTS[v]
            objs = []
            for s in repo_sources():
                fl = ["-std=c++14"] + COMMON + ["-I" + gen] + vf
                if os.path.relpath(s, REPO) == "src/redsea.cc":
                    fl = fl + ["-Dmain=redsea_main"]
                objs.append((s, os.path.join(BUILD, v, os.path.relpath(s, REPO).replace("/", "_") + ".o"), fl))
            for s in hsrc:
                fl = ["-std=c++17"] + COMMON + ["-I" + gen, "-I" + H] + vf
                # the reference decoder and the engine need no instrumentation
                objs.append((s, os.path.join(BUILD, v, "h_" + os.path.relpath(s, H).replace("/", "_") + ".o"), fl))
            per[v] = objs
            jobs += objs
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) if "tmc.cc" not in j[0] else -10**9)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for err, _ in ex.map(compile_one, jobs):
                if err:
                    raise RuntimeError(err)
        for v in variants:
            exe = os.path.join(BUILD, v, "harness")
            objs = [o for _, o, _ in per[v]]
            sig = hashlib.sha256(json.dumps([sorted((o, sha_file(o)) for o in objs), VARIANTS[v]]).encode()).hexdigest()
            sigf = exe + ".sig"
            if not (os.path.exists(exe) and os.path.exists(sigf) and open(sigf).read() == sig):
                r = subprocess.run([CXX] + VARIANTS[v] + objs + ["-o", exe, "-pthread", "-lsndfile", "-lliquid", "-lm"], capture_output=True, text=True)
                if r.returncode != 0:
                    raise RuntimeError("linking failed:\n" + r.stderr[-4000:])
                open(sigf, "w").write(sig)
            out[v] = exe
        _memo.clear()
        return out


if __name__ == "__main__":
    try:
        print(build(tuple(sys.argv[1:]) or ("fast",)))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
