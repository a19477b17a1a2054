"""Thin wrapper around TLC."""
import os
import re
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
JAVA = ["RatValue.java", "Rat.java"]


def ensure_build():
    src = [os.path.join(ROOT, "java", f) for f in JAVA]
    out = os.path.join(BUILD, "Rat.class")
    if os.path.exists(out) and os.path.getmtime(out) >= max(map(os.path.getmtime, src)):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vf_javac_")
    subprocess.run(["javac", "-cp", JAR, "-d", tmp] + src, check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in sorted(os.listdir(tmp), key=lambda f: f == "Rat.class"):
        os.replace(os.path.join(tmp, f), os.path.join(BUILD, f)) if os.stat(tmp).st_dev == os.stat(BUILD).st_dev \
            else __import__("shutil").move(os.path.join(tmp, f), os.path.join(BUILD, f))
    os.rmdir(tmp)


class TLCResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(d[-1]) if d else 0
        self.ok = rc == 0 and "No error has been found" in out


def run(module, cfg_text, workers=8, timeout=1500, extra=(), heap="6g", simulate=None):
    """module: name of spec/<module>.tla;  cfg_text: contents of the config file"""
    ensure_build()
    meta = tempfile.mkdtemp(prefix="vf_tlc_")
    cfg = os.path.join(meta, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m",
           "-DTLA-Library=" + SPEC, "-cp", ":".join([BUILD, JAR, CM]), "tlc2.TLC",
           "-deadlock", "-nowarning", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(meta, "states"), "-config", cfg]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=meta)
        out = p.stdout + p.stderr
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        out += "\nTLC-TIMEOUT"
        rc = 99
    subprocess.run(["rm", "-rf", meta])
    out = "\n".join(l for l in out.splitlines() if not l.startswith("Loading "))
    return TLCResult(rc, out)
