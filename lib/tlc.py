"""Run TLC on a specification of /verif/spec and collect what it printed."""
import os, re, subprocess, tempfile, shutil, glob, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"


def compile_override():
    src, cls = os.path.join(SPEC, "R64.java"), os.path.join(BUILD, "R64.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="javac_", dir=BUILD)
    subprocess.run(["javac", "-cp", JAR, "-d", tmp, src], check=True, capture_output=True)
    for f in glob.glob(os.path.join(tmp, "*")):
        os.replace(f, os.path.join(BUILD, os.path.basename(f)))
    shutil.rmtree(tmp, ignore_errors=True)


class TLCError(RuntimeError):
    pass


def run(module, cfg=None, env=None, workers=8, heap="6g", simulate=None, depth=None, seed=None, dump=None,
        timeout=800, extra=()):
    """Returns {"out", "printed", "generated", "distinct", "depth", "violated", "trace", "seconds"}.
    Raises TLCError when TLC could not evaluate the model."""
    compile_override()
    md = tempfile.mkdtemp(prefix="tlc_")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md, "-cp", f"{BUILD}:{JAR}:{COMM}",
               "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
        if simulate is not None:
            cmd += ["-simulate"] + ([f"num={simulate}"] if simulate else [])
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        if dump:
            cmd += ["-dump"] + list(dump)
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out = p.stdout
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = {"out": out, "rc": p.returncode, "seconds": time.time() - t0,
         "printed": [bytes(m, "utf8").decode("unicode_escape") for m in re.findall(r'^"(.*)"$', out, re.M)]}
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    r["generated"] = int(m[-1][0].replace(",", "")) if m else 0
    r["distinct"] = int(m[-1][1].replace(",", "")) if m else 0
    if not m:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        r["generated"] = r["distinct"] = int(m[-1].replace(",", "")) if m else 0
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    r["depth"] = int(m[-1]) if m else 0
    m = re.findall(r"(?:Invariant|Action property|Temporal properties?|property) (\w*) ?(?:is|was|were) violated", out)
    r["violated"] = m
    if not m and "is violated" in out:
        r["violated"] = ["?"]
    if not r["violated"] and p.returncode != 0:
        tail = "\n".join(x for x in out.splitlines() if not x.startswith(("Loading", "Parsing", "Semantic", "Linting")))
        raise TLCError(f"TLC exit {p.returncode} on {module}:\n{tail[-3000:]}\n{p.stderr[-800:]}")
    return r
