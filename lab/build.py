"""Builds the real code of /repo's working tree, plus harnesses, outside /repo."""
import concurrent.futures as cf
import hashlib, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DPPIR_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LIBS = ["-lsodium", "-ldl", "-lpthread"]

class BuildError(Exception):
    pass

def absl_libs():
    out = subprocess.run(["pkg-config", "--libs", "absl_flags_parse", "absl_flags", "absl_flags_usage"],
                         capture_output=True, text=True, check=True).stdout
    return out.split()

def sources():
    """All non-test C++ sources of the program, relative to REPO."""
    res = []
    for d, _, files in os.walk(os.path.join(REPO, "DPPIR")):
        for f in sorted(files):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".cc") and not f.endswith("_test.cc"):
                res.append(p)
    return sorted(res)

def tree_hash():
    h = hashlib.sha256()
    for d, ds, files in os.walk(os.path.join(REPO, "DPPIR")):
        ds.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    for f in sorted(os.listdir(os.path.join(VERIF, "lab"))):
        if f.endswith((".cc", ".h")) or f == "build.py":
            with open(os.path.join(VERIF, "lab", f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]

# variant name -> (extra compile flags, consts overrides)
VARIANTS = {
    "std": (["-O1"], None),
    "small": (["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
              {"BUFFER_SIZE": 520, "POLL_RATE": 520, "PROGRESS_RATE": 3, "RCVBUF": 4096, "SNDBUF": 4096}),
    "tiny": (["-O1"], {"BUFFER_SIZE": 520, "POLL_RATE": 520}),
    "sample": (["-O1", "-DDPPIR_SAMPLE"], None),
}

def run(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what, " ".join(cmd), p.stderr[-3000:]))

class Builder:
    def __init__(self):
        self.hash = tree_hash()
        self.dir = os.path.join(CACHE, self.hash)
        os.makedirs(self.dir, exist_ok=True)
        self._prune()

    def _prune(self):
        ents = sorted((os.path.getmtime(os.path.join(CACHE, e)), e) for e in os.listdir(CACHE))
        for _, e in ents[:-6]:
            if e != self.hash:
                shutil.rmtree(os.path.join(CACHE, e), ignore_errors=True)
        os.utime(self.dir)

    def _src_root(self, variant):
        """REPO itself, or a copy with reduced buffer constants."""
        over = VARIANTS[variant][1]
        if not over:
            return REPO
        root = os.path.join(self.dir, variant, "src")
        if not os.path.isdir(root):
            tmp = tempfile.mkdtemp(dir=self.dir)
            shutil.copytree(os.path.join(REPO, "DPPIR"), os.path.join(tmp, "DPPIR"))
            for d, _, files in os.walk(tmp):
                for f in files:
                    if f.endswith((".h", ".cc", ".inc")):
                        p = os.path.join(d, f)
                        s = open(p, encoding="utf-8", errors="surrogateescape").read()
                        t = s
                        for name, val in over.items():
                            t = re.sub(r"(#\s*define\s+%s\s+)[0-9]+\b" % name, r"\g<1>%d" % val, t)
                        if t != s:
                            open(p, "w", encoding="utf-8", errors="surrogateescape").write(t)
            os.makedirs(os.path.dirname(root), exist_ok=True)
            try:
                os.rename(tmp, root)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return root

    def objects(self, variant):
        """Compiles everything; returns (library objects, main object, gen_config object)."""
        root = self._src_root(variant)
        flags = ["g++", "-std=c++17", "-w", "-I", root] + VARIANTS[variant][0]
        odir = os.path.join(self.dir, variant, "obj")
        os.makedirs(odir, exist_ok=True)
        jobs, lib, main_o, gen_o = [], [], None, None
        for src in sources():
            obj = os.path.join(odir, src.replace("/", "_")[:-3] + ".o")
            extra = []
            if src == "DPPIR/main.cc":
                main_o, extra = obj, ["-Dmain=dppir_main"]
            elif src.endswith("gen_config.cc"):
                gen_o = obj
            else:
                lib.append(obj)
            if not os.path.exists(obj):
                jobs.append((flags + extra + ["-c", os.path.join(root, src)], obj, src))
        for name in ("shim", "mainwrap"):
            obj = os.path.join(odir, "_%s.o" % name)
            if not os.path.exists(obj):
                jobs.append((["g++", "-std=c++17", "-O1", "-w", "-c", os.path.join(VERIF, "lab", name + ".cc")], obj, name))
        def one(j):
            cmd, obj, src = j
            tmp = obj + ".%d.tmp" % os.getpid()
            run(cmd + ["-o", tmp], "compiling " + src)
            os.rename(tmp, obj)
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        return lib, main_o, gen_o, odir

    def _link(self, variant, objs, out):
        san = [f for f in VARIANTS[variant][0] if f.startswith("-fsanitize")]
        tmp = out + ".%d.tmp" % os.getpid()
        run(["g++"] + san + ["-o", tmp] + objs + absl_libs() + LIBS, "linking " + out)
        os.rename(tmp, out)

    def program(self, variant="std"):
        out = os.path.join(self.dir, variant, "dppir")
        if not os.path.exists(out):
            lib, main_o, _, odir = self.objects(variant)
            self._link(variant, lib + [main_o, odir + "/_shim.o", odir + "/_mainwrap.o"], out)
        return out

    def gen_config(self, variant="std"):
        out = os.path.join(self.dir, variant, "gen_config")
        if not os.path.exists(out):
            lib, _, gen_o, _ = self.objects(variant)
            self._link(variant, lib + [gen_o], out)
        return out

    def harness(self, name, variant="std", shim=True):
        """Links lab/<name>.cc against the real library objects."""
        out = os.path.join(self.dir, variant, "h_" + name)
        if not os.path.exists(out):
            lib, _, _, odir = self.objects(variant)
            obj = os.path.join(odir, "_h_%s.o" % name)
            run(["g++", "-std=c++17", "-w", "-I", self._src_root(variant), "-I", os.path.join(VERIF, "lab")]
                + VARIANTS[variant][0] + ["-c", os.path.join(VERIF, "lab", name + ".cc"), "-o", obj], "compiling harness " + name)
            self._link(variant, lib + [obj] + ([odir + "/_shim.o"] if shim else []), out)
        return out

if __name__ == "__main__":
    b = Builder()
    for v in (sys.argv[1:] or ["std"]):
        print(b.program(v))
