"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ModelError(Exception):
    """TLC could not evaluate the model: an error of the check, never a verdict."""

class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        self.prints = [l for l in out.splitlines() if l.startswith(("<<\"", "\"", "["))]
    def error(self):
        lines = [l for l in self.out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", "Picked"))]
        i = next((i for i, l in enumerate(lines) if l.startswith("Error")), max(0, len(lines) - 15))
        return "\n".join(lines[i:i + 25])[:3000]

def run(module, cfg, env=None, workers=2, timeout=600, args=(), heap="3g", template=None, quiet=False):
    """cfg: the text of a configuration file. Returns a Result."""
    d = tempfile.mkdtemp(prefix="dppir-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        if template:
            text = open(os.path.join(SPEC, template[0])).read()
            for k, v in template[1].items():
                text = text.replace(k, v)
            with open(os.path.join(d, module + ".tla"), "w") as f:
                f.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", "run.cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
            return Result(p.stdout + p.stderr, p.returncode)
        except subprocess.TimeoutExpired as x:
            raise ModelError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def cfg_text(consts=None, spec="Spec", invariants=(), properties=(), deadlock=True, extra=""):
    t = ""
    if consts:
        t += "CONSTANTS\n" + "".join("  %s %s %s\n" % (k, "<-" if isinstance(v, Sub) else "=", v) for k, v in consts.items())
    t += "SPECIFICATION %s\nCHECK_DEADLOCK %s\n" % (spec, "TRUE" if deadlock else "FALSE")
    if invariants:
        t += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        t += "PROPERTIES " + " ".join(properties) + "\n"
    return t + extra

class Sub(str):
    """A constant substituted by a definition."""

def tla(v):
    """Python value -> TLA+ literal."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)
