"""C23: the real worker daemons (shell scripts) against Daemon.tla, with stand-ins for every command
that would reach the network, other processes or the build system."""
import concurrent.futures as cf
import json, os, queue, re, shutil, signal, socket, struct, subprocess, tempfile, threading, time
import build, comp, lab, tlc

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = ("client", "server")

def model(prop, tier, rng, builder, out, deadline):
    for k in KINDS:
        r = tlc.run("MCDaemon", tlc.cfg_text(dict(Kind='"%s"' % k, Steps=0, MaxJobs=2 if tier == "quick" else 4, MaxLines=2), spec="FairSpec", invariants=["Inv"], properties=["Served"], deadlock=False), workers=4, timeout=1200)
        if not r.ok:
            raise tlc.ModelError(r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCDaemon %s: %d states" % (k, r.distinct))

def histories(kind, num, steps, seed):
    cfg = tlc.cfg_text(dict(Kind='"%s"' % kind, Steps=steps, MaxJobs=1000, MaxLines=4), deadlock=False)
    r = tlc.run("MCDaemon", cfg, workers=1, timeout=300, args=["-simulate", "num=%d" % num, "-depth", str(steps * 3), "-seed", str(seed)])
    text = re.sub(r"\n\s+", " ", r.out)
    res = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'<<\s*"SCHED",\s*"(.*?[^\\])"\s*>>', text)]
    if not res:
        raise tlc.ModelError("no histories: " + r.error())
    return res[:num]

LINES = ["", " with 100% of C:\\temp $HOME `x` \"q\" 'a' & < > @file", "\r more after a carriage return", "\t\u00e9\u00ff bytes", " =&+ %41 "]

class Run:
    """One daemon under one history."""
    def __init__(self, kind, hist, n, stub):
        self.stub = stub
        self.kind, self.h, self.n = kind, list(hist), n
        self.evs, self.q = [], queue.Queue()
        self.wid = str(11 + n % 80)
        self.jobno, self.nline, self.out, self.tok = 0, 0, [], None
        self.job = None      # connection of the running program's stand-in
        self.prog = None     # the program itself: fake process
        self.over_asks = 0
        self.last_ask = "0"
        self.confs = {}
        self.ended = False

    def run(self):
        self.d = d = tempfile.mkdtemp(prefix="dppir-dm-")
        try:
            return self._run(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _run(self, d):
        src = os.path.join(build.REPO, "experiments")
        root, bins = os.path.join(d, "root"), os.path.join(d, "bin")
        os.makedirs(os.path.join(root, "experiments"))
        os.makedirs(os.path.join(root, "config"))
        os.makedirs(bins)
        for f in os.listdir(src):
            if f.endswith(".sh"):
                shutil.copy(os.path.join(src, f), os.path.join(root, "experiments", f))
        for sub in ("checklist", "sealpir"):
            os.makedirs(os.path.join(root, "experiments", sub))
            for f in os.listdir(os.path.join(src, sub)) if os.path.isdir(os.path.join(src, sub)) else []:
                if f.endswith(".sh"):
                    shutil.copy(os.path.join(src, sub, f), os.path.join(root, "experiments", sub, f))
        stub = os.path.join(bins, "stub")
        shutil.copy(self.stub, stub)
        shutil.copy(os.path.join(HERE, "daemon_env.sh"), os.path.join(bins, "env.sh"))
        os.chmod(stub, 0o755)
        for c in ("curl", "bazel", "bazelisk", "sleep", "ps", "pkill", "pgrep", "killall", "killrec"):
            os.symlink("stub", os.path.join(bins, c))
        for b in ("DPPIR/main",):
            for pre in ("bazel-bin", "bazel-out/k8-opt/bin"):
                p = os.path.join(root, pre, b)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(stub, p)
        sock = os.path.join(d, "s")
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(sock)
        srv.listen(64)
        who = {}
        if os.geteuid() == 0:
            who = dict(user=65534, group=65534, extra_groups=[])
            for r, ds, fs in os.walk(d):
                for x in [r] + [os.path.join(r, f) for f in fs]:
                    os.chown(x, 65534, 65534, follow_symlinks=False)
        stop = threading.Event()
        def reader(c):
            try:
                m = self.parse(c)
            except (OSError, EOFError):
                return
            self.q.put(m)
        def acceptor():
            while not stop.is_set():
                try:
                    c, _ = srv.accept()
                except OSError:
                    return
                threading.Thread(target=reader, args=(c,), daemon=True).start()
        threading.Thread(target=acceptor, daemon=True).start()
        env = {"PATH": bins + ":/usr/local/bin:/usr/bin:/bin", "LAB_SOCK": sock, "LAB_ROOT": root, "LAB_BIN": bins, "BASH_ENV": os.path.join(bins, "env.sh"), "HOME": root, "LC_ALL": "C"}
        self.p = subprocess.Popen(["/bin/bash", "./experiments/daemon_%s.sh" % self.kind, "orchestrator:8000"], cwd=root, env=env, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=lab.limits, **who)
        try:
            self.serve()
        finally:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            stop.set()
            srv.close()
        return {"t": "daemon", "kind": self.kind, "evs": self.evs}

    # ---- calls ----------------------------------------------------------------------
    def parse(self, c):
        f = c.makefile("rb")
        def raw(n):
            b = f.read(n)
            if len(b) < n:
                raise EOFError
            return b
        num = lambda: struct.unpack("<I", raw(4))[0]
        text = lambda: raw(num()).decode("latin-1")
        m = {"c": c, "f": f, "pid": num(), "cwd": text()}
        n = num()
        m["name"] = text()
        m["args"] = args = [text() for _ in range(n - 1)]
        stdin = text()
        root = os.path.join(self.d, "root")
        def contents(p):
            for q in (os.path.join(m["cwd"], p), os.path.join(root, p)):
                try:
                    return open(q, "rb").read().decode("latin-1")
                except OSError:
                    pass
            return None
        if m["name"] == "curl":
            url, data, i = "", None, 0
            while i < len(args):
                a = args[i]
                if a in ("-H", "--header", "-X", "--request", "-m", "--max-time", "--connect-timeout", "--retry", "--retry-delay", "-A", "-w", "--write-out"):
                    i += 1
                elif a in ("-o", "--output"):
                    i += 1
                    m["to"] = os.path.join(m["cwd"], args[i])
                elif a in ("--data-binary", "--data", "-d", "--data-ascii", "--data-raw", "-T", "--upload-file"):
                    i += 1
                    v = args[i]
                    if a in ("-T", "--upload-file"):
                        data = stdin if v == "-" else contents(v)
                    elif a != "--data-raw" and v.startswith("@"):
                        data = stdin if v == "@-" else contents(v[1:])
                        if a != "--data-binary" and data is not None:
                            data = data.replace("\r", "").replace("\n", "").replace("\0", "")
                    else:
                        data = v
                elif not a.startswith("-"):
                    url = a
                i += 1
            m.update(url=url, data=data)
        elif m["name"] not in ("sleep", "ps", "pkill", "pgrep", "killall", "killrec"):
            # a program: bazel run <target> ... -- <arguments>, or the binary itself
            rest = args[args.index("--") + 1:] if "--" in args else args
            for i, a in enumerate(rest):
                p = a.split("=", 1)[1] if a.startswith("--config=") or a.startswith("-config=") else rest[i + 1] if a in ("--config", "-config") and i + 1 < len(rest) else None
                if p is not None:
                    m["conf"] = contents(p)
            m["rest"] = rest
        return m

    # ---- replies ------------------------------------------------------------------
    def say(self, m, text, err=False):
        b = text.encode("latin-1")
        if "to" in m:
            with open(m["to"], "wb") as f:
                f.write(b)
            os.chown(m["to"], 65534, 65534) if os.geteuid() == 0 else None
            return True
        try:
            m["c"].sendall(struct.pack("<II", 2 if err else 1, len(b)) + b)
            return m["f"].read(1) == b"k"
        except OSError:
            return False
    def bye(self, m, code=0):
        try:
            m["c"].sendall(struct.pack("<II", 0, code))
            m["f"].close()
            m["c"].close()
        except OSError:
            pass
    def reply(self, m, text, code=0):
        self.say(m, text)
        self.bye(m, code)

    # ---- history --------------------------------------------------------------------
    def next_is(self, e):
        return bool(self.h) and self.h[0]["e"] == e
    def take(self, e, default):
        if self.next_is(e):
            return self.h.pop(0)["ans"]
        return default
    def gone(self, pid):
        """waits until the job's process has left the process table (its parent reaped it)"""
        t = time.time() + 5
        while time.time() < t and os.path.exists("/proc/%d" % pid):
            time.sleep(0.002)
    def children(self):
        try:
            return [int(x) for x in open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)).read().split()]
        except (OSError, ValueError):
            return []
    def progress(self, busy=None):
        """program output and termination that the history has next"""
        while self.job and (self.next_is("out") or self.next_is("end")):
            e = self.h.pop(0)["e"]
            if e == "out":
                self.nline += 1
                line = "L%d-%d%s" % (self.jobno, self.nline, LINES[(self.jobno * 3 + self.nline) % len(LINES)])
                nl = "" if self.nline == 4 else "\n"
                if self.say(self.job, line + nl, self.nline % 2 == 0):
                    self.out.append(line)
                    self.evs.append({"e": "out"})
                else:
                    self.job = None
            else:
                pid = self.job["pid"]
                kids = self.children()
                self.prog["alive"] = False
                self.bye(self.job, 0)
                self.gone(pid)
                if busy:   # the wrapper script, too
                    t = time.time() + 5
                    while time.time() < t and [k for k in self.children() if k != busy["pid"]]:
                        time.sleep(0.002)
                self.job = None
                self.ended = True
                self.evs.append({"e": "end"})
        if self.h and not self.job and self.h[0]["e"] in ("out", "end", "ask") and self.ended:
            while self.h and self.h[0]["e"] in ("out", "end", "ask"):
                self.h.pop(0)

    # ---- logs --------------------------------------------------------------------------
    def exact(self, data):
        if data is None:
            return 0
        got = [l for l in re.findall(r"L\d+-\d+[^\n]*", data)]
        want = list(self.out)
        if want and want[-1].startswith("L%d-4" % self.jobno) and got:
            # the last line has no end of line: a remark of the daemon may follow on it
            if got[-1].startswith(want[-1]):
                got[-1] = want[-1]
        return 1 if got == want else 0

    def serve(self):
        last, idle = -1, 0
        while True:
            # a worker that goes on asking without getting anywhere
            idle = idle + 1 if len(self.h) == last else 0
            last = len(self.h)
            if idle > 150:
                self.evs.append({"e": "stuck", "why": "does not get on"})
                return
            try:
                m = self.q.get(timeout=0.2 if self.p.poll() is not None else 20)
            except queue.Empty:
                self.evs.append({"e": "stuck", "why": "exited" if self.p.poll() is not None else "silent"})
                return
            n = m["name"]
            if n == "curl":
                if not self.request(m):
                    return
            elif n == "sleep":
                self.progress(m)
                if not self.h:
                    self.bye(m)
                    return
                self.bye(m)
            elif n in ("ps", "pgrep", "pkill", "killall", "killrec"):
                self.processes(m)
            else:
                self.start(m)

    def fake(self):
        return [self.prog] if self.prog and self.prog["alive"] else []
    def killed(self, pids):
        for x in self.fake():
            if x["pid"] in pids:
                x["alive"] = False
                if self.job:
                    self.bye(self.job, 143)
                    self.gone(self.job["pid"])
                    self.job = None
    def processes(self, m):
        n, a = m["name"], m["args"]
        fs = self.fake()
        if n == "ps":
            pids = [x for i, x in enumerate(a) if i and a[i - 1] in ("-p", "--pid", "p")]
            if pids:
                self.reply(m, "    PID TTY          TIME CMD\n" + "".join("%7s ?        00:00:00 x\n" % p for p in pids if os.path.exists("/proc/" + p)), 0 if any(os.path.exists("/proc/" + p) for p in pids) else 1)
                return
            text = "USER         PID %CPU %MEM    VSZ   RSS TTY      STAT START   TIME COMMAND\n"
            text += "nobody   %d  0.0  0.0   9000  3000 ?        S    10:00   0:00 /usr/bin/unrelated --x\n" % 5000001
            for x in fs:
                text += "nobody   %d  9.0  0.1   9000  3000 ?        R    10:00   0:01 %s\n" % (x["pid"], x["cmd"])
            self.reply(m, text)
        elif n in ("pgrep", "pkill", "killall"):
            pat = a[-1] if a else ""
            try:
                hit = [x["pid"] for x in fs if re.search(pat, x["cmd"])]
            except re.error:
                hit = []
            if n == "pgrep":
                self.reply(m, "".join("%d\n" % x for x in hit), 0 if hit else 1)
            else:
                self.killed(hit)
                self.bye(m, 0 if hit else 1)
        else:
            if a and a[0] in ("-0", "-l"):
                self.bye(m)
                return
            nums = {int(x) for x in a if x.isdigit()}
            self.killed(nums)
            self.bye(m)

    def start(self, m):
        args, rest = m["args"], m.get("rest", [])
        head = args[:args.index("--")] if "--" in args else args
        what = " ".join([m["name"]] + head)
        here = os.path.basename(m["cwd"])
        if m["name"] in ("bazel", "bazelisk") and "run" not in head:
            self.bye(m)     # building something
            return
        if m["name"] == "main" or "DPPIR:main" in what or "DPPIR/main" in what:
            prog, cmd = "dppir", "/home/u/.cache/bazel/execroot/bazel-out/k8-opt/bin/DPPIR/main "
        elif "rpc_server" in what:
            prog, cmd = "checklist-server", "/home/u/.cache/bazel/external/checklist/cmd/rpc_server/rpc_server_/rpc_server "
        elif "sealpir" in what:
            prog, cmd = "sealpir", "/home/u/.cache/bazel/execroot/bazel-out/k8-opt/bin/sealpir "
        elif ":main" in what and here == "checklist":
            prog, cmd = "checklist-client", "/home/u/.cache/bazel/execroot/bazel-out/k8-fastbuild/bin/main_/main "
        else:
            prog, cmd = "other", what
        fl, i = {}, 0
        while i < len(rest):
            a = rest[i]
            if a.startswith("-"):
                k, eq, v = a.lstrip("-").partition("=")
                if not eq and i + 1 < len(rest) and not rest[i + 1].startswith("-"):
                    i += 1
                    v = rest[i]
                fl[k] = v
            i += 1
        conf = m.get("conf")
        ev = {"e": "start", "prog": prog, "fl": fl, "last": rest[-1] if rest else "", "conf": self.confs.get(conf, "other") if conf is not None else ""}
        self.evs.append(ev)
        self.job = m
        self.prog = {"pid": 5000100 + self.jobno, "cmd": cmd + " ".join(rest), "alive": True}
        self.progress()

    def request(self, m):
        url = re.sub(r"^https?://", "", m["url"])
        parts = url.split("/")
        if parts[0] != "orchestrator:8000" or len(parts) != 3:
            self.evs.append({"e": "other", "url": m["url"]})
            self.bye(m, 6)
            return False
        op, who = parts[1], parts[2]
        if op == "giveip":
            self.evs.append({"e": "reg", "kind": who, "ans": self.wid})
            self.reply(m, self.wid)
        elif op == "ping":
            if not self.h:
                self.bye(m)
                return False
            while self.h and self.h[0]["e"] != "ping":
                self.h.pop(0)
            ans = self.take("ping", ["WAIT"])
            self.evs.append({"e": "ping", "w": who, "ans": ans})
            if ans != ["WAIT"]:
                self.jobno += 1
                self.nline, self.out, self.tok, self.ended, self.over_asks, self.prog, self.job, self.last_ask = 0, [], ans, False, 0, None, None, "0"
            self.reply(m, " ".join(ans))
        elif op == "config":
            ans = self.take("config", "cfg")
            if ans != "WAIT":
                # as the real ones: binary, and different each time
                text = "\x64\0\0\0CFG%d-%d\0\x01\xff WAIT\n\n\0tail\n" % (self.n, self.jobno)
                self.confs[text] = ans = "cfg%d" % self.jobno
                self.evs.append({"e": "config", "w": who, "ans": ans})
                self.reply(m, text)
            else:
                self.evs.append({"e": "config", "w": who, "ans": ans})
                self.reply(m, "WAIT")
        elif op == "shouldkill":
            known = self.tok and self.tok[0] in (("dppir", "checklist", "sealpir") if self.kind == "client" else ("dppir", "checklist"))
            if known and self.job is None and not self.ended and self.prog is None:
                # the program is on its way
                held = []
                t = time.time() + 15
                while time.time() < t and self.prog is None:
                    try:
                        x = self.q.get(timeout=0.5)
                    except queue.Empty:
                        continue
                    if x["name"] in ("curl", "sleep", "ps", "pgrep", "pkill", "killall", "killrec"):
                        held.append(x)
                    else:
                        self.start(x)
                for x in held:
                    self.q.put(x)
            ans = "0"
            if self.ended:
                self.over_asks += 1
                if self.over_asks > 4:
                    self.evs.append({"e": "stuck", "why": "keeps asking about a job that is over"})
                    self.bye(m)
                    return False
            elif known:
                ans = self.take("ask", "0")
            self.last_ask = ans
            self.evs.append({"e": "ask", "w": who, "ans": ans})
            self.reply(m, ans)
        elif op == "showlog":
            self.evs.append({"e": "showlog", "w": who, "exact": self.exact(m["data"])})
            self.reply(m, "")
        elif op == "done":
            data = m["data"]
            self.evs.append({"e": "done", "w": who, "exact": self.exact(data), "alive": 1 if self.fake() else 0, "marked": 1 if data and re.search("kill|stop|abort|terminat", data, re.I) else 0})
            self.ended = True
            self.reply(m, "")
        else:
            self.evs.append({"e": "other", "url": m["url"]})
            self.bye(m, 22)
            return False
        return True

def replays(prop, tier, rng, builder, out, deadline):
    num, steps = (30, 60) if tier == "quick" else (600, 100)
    hists = [(k, h) for k in KINDS for h in histories(k, num, steps, rng.randrange(1, 10**6))]
    d = tempfile.mkdtemp(prefix="dppir-stub-")
    try:
        stub = os.path.join(d, "stub")
        subprocess.run(["cc", "-O1", "-o", stub, os.path.join(HERE, "daemon_stub.c")], check=True)
        def make():
            with cf.ThreadPoolExecutor(10) as ex:
                recs = list(ex.map(lambda x: Run(x[1][0], x[1][1], x[0], stub).run(), enumerate(hists)))
            out.notes.append("%d jobs, %d moves" % (sum(e["e"] == "done" for r in recs for e in r["evs"]), sum(len(r["evs"]) for r in recs)))
            return recs
        comp.check(prop, "Daemon", make, out, "histories of %d moves from MCDaemon" % steps)
    finally:
        shutil.rmtree(d, ignore_errors=True)
