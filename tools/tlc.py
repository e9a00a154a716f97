"""Runs TLC on the modules of /verif/spec."""
import json, os, re, shutil, subprocess
from buildlib import VERIF, ToolError

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


def start(module, cfg, work, env=None, heap="2g", workers="1", extra=()):
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ, **{"FEATS": "allstd", **(env or {})})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseSerialGC", "-Xss512m", f"-Xmx{heap}", "-XX:TieredStopAtLevel=4", f"-DTLA-Library={SPEC}", "-cp", JAR, "tlc2.TLC",
           "-config", os.path.join(SPEC, cfg), "-metadir", os.path.join(work, "states"), "-workers", workers,
           "-noGenerateSpecTE", *extra, os.path.join(SPEC, module + ".tla")]
    out = open(os.path.join(work, module + ".out"), "w")
    return subprocess.Popen(cmd, env=e, stdout=out, stderr=subprocess.STDOUT, cwd=work), out.name


def finish(p, path, timeout):
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, open(path).read()
    return p.returncode, open(path).read()


def stats(text):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text)
    g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    return g, d, int(m.group(1)) if m else 0


def progress(text):
    m = re.findall(r"Progress\(\d+\) at [^:]*:\d+:\d+: ([\d,]+) states generated[^,]*, ([\d,]+) distinct", text)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else None


def trim(text):
    return "\n".join(l for l in text.split("\n") if not l.startswith(("Semantic", "Linting", "Computed", "Parsing")))[:3000]


def layouts(corpus, work):
    """what the spec says about each declaration"""
    os.makedirs(work, exist_ok=True)
    decls, out = os.path.join(work, "decls.json"), os.path.join(work, "layout.json")
    with open(decls, "w") as f:
        f.write(corpus.json())
    p, path = start("Layout", "Layout.cfg", os.path.join(work, "layout"), {"DECLS": decls, "OUT": out})
    rc, text = finish(p, path, 300)
    if rc != 0 or not os.path.exists(out):
        raise ToolError("Layout: " + text[-3000:])
    return json.load(open(out)), decls
