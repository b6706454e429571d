"""Driver of the utilities: executes jobs in the real code of /repo and records what it did.

usage: utiljobs.py JOBS.json OUT.json     JOBS = {"jobs": [{"kind", ...}]}, OUT = {"cases": [...]}

Every job works in a scratch directory that is removed afterwards; nothing of
/repo is written (the set-up tool runs from a copy of its package).  The real
libraries are used, without the stand-in for numba.  No judgement is made here.
"""
import sys, os, json, struct, shutil, tempfile, io, contextlib, math, builtins, importlib, importlib.util, traceback, copy
REPO = os.environ.get("REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
import warnings
warnings.filterwarnings("ignore")
import numpy as np


def enc(x):
    x = float(x)
    if x != x:
        return [2146959360, 0]
    return list(struct.unpack(">ii", struct.pack(">d", x if x != 0 else 0.0)))


def dec(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def opt(p):
    """a number that may be absent"""
    return None if p == [] else dec(p)


def ends(f):
    """-> (how it ended, message, what it returned)"""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r = f()
        return "done", "", r
    except (Exception, SystemExit) as e:
        if os.environ.get("DRVDEBUG"):
            traceback.print_exc()
        return type(e).__name__, str(e)[:200], None


def child(f):
    """f() in a process of its own (module state, working directory, argv)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            v = f()
            with os.fdopen(w, "w") as h:
                json.dump(v, h)
            code = 0
        except BaseException:
            traceback.print_exc()
        os._exit(code)
    os.close(w)
    with os.fdopen(r) as h:
        s = h.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise RuntimeError("a child of the driver failed")
    return json.loads(s)


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


# ---------------------------------------------------------------- set-up tool
SAMPLES = ["config.toml", "constants.toml", "slurm_config.toml", "utilities_config.toml"]


def job_setup(job):
    top = os.getcwd()
    src = os.path.join(top, "pkg")
    shutil.copytree(os.path.join(REPO, "cosipy/utilities/setup_cosipy"), src, ignore=shutil.ignore_patterns("__pycache__"))
    for f in job["missing"]:
        os.remove(os.path.join(src, f))
    shipped = {f: open(os.path.join(src, f), "rb").read() for f in os.listdir(src)}
    k = job["case_kind"]
    home = os.path.join(top, "home")
    os.makedirs(home)
    where = {"here": ".", "dir": "there", "new": "fresh", "deep": "a/b c/d", "samples": src, "samples-relative": "../pkg", "samples-link": "link"}[k]
    if k == "samples-link":
        os.symlink(src, os.path.join(home, "link"))
    target = os.path.normpath(os.path.join(home, where))
    if k in ("here", "dir"):
        os.makedirs(target, exist_ok=True)
    own = {f: ("# mine %s\n" % f).encode() + b"\xff\x00" for f in SAMPLES}
    if not k.startswith("samples"):
        for f, c in job["first"].items():
            if c != "absent":
                orig = os.path.join(REPO, "cosipy/utilities/setup_cosipy", f)
                open(os.path.join(target, f), "wb").write(own[f] if c == "user" else open(orig, "rb").read())
    os.chdir(home)
    used = [0]

    def reply(prompt=""):
        if used[0] == len(job["answers"]):
            raise EOFError
        used[0] += 1
        return job["answers"][used[0] - 1]

    real = builtins.input
    builtins.input = reply
    sys.argv = ["cosipy-setup"] + (["-o", where] if k != "here" else []) + (["-y"] if job["overwrite"] else [])
    try:
        mod = load(os.path.join(src, "setup_cosipy.py"), "setup_under_test")
        end, msg, _ = ends(mod.main)
    finally:
        builtins.input = real
        os.chdir(top)

    def what(f):
        p = os.path.join(target, f)
        if not os.path.lexists(p):
            return "absent"
        b = open(p, "rb").read()
        orig = open(os.path.join(REPO, "cosipy/utilities/setup_cosipy", f), "rb").read()
        return "user" if b == own[f] else "sample" if b == orig else "other"

    now = {f: what(f) for f in SAMPLES}
    extra = sorted(set(os.listdir(target)) - set(SAMPLES)) if not k.startswith("samples") and os.path.isdir(target) else []
    if k == "here" or k == "dir":
        pass
    same = {f: os.path.exists(os.path.join(src, f)) and open(os.path.join(src, f), "rb").read() == b for f, b in shipped.items()}
    return {"kind": k, "first": job["first"], "missing": job["missing"], "overwrite": job["overwrite"], "answers": job["answers"],
            "used": used[0], "now": now, "samples": same, "end": end, "extra": extra, "msg": msg}


KINDS = {"setup": job_setup}


def run_one(job):
    d = tempfile.mkdtemp(prefix="util_")
    os.chdir(d)
    try:
        return KINDS[job["kind"]](job)
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)


def main():
    src, dst = sys.argv[1:3]
    jobs = json.load(open(src))["jobs"]
    if any(j["kind"] != "setup" for j in jobs):
        import utilwork
        utilwork.prepare({j["kind"] for j in jobs})
        KINDS.update(utilwork.KINDS)
    out = [run_one(j) for j in jobs]
    json.dump({"cases": out}, open(dst, "w"))


if __name__ == "__main__":
    main()
