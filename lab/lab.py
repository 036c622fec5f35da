"""Runs real DP-PIR processes with a controller in the middle of every link and
records what happens as a trace for TLC (see spec/DPPIRTrace.tla).

Node names: (-1, s) is client s, (k, s) is server s of party k.
Link (k, s): between node (k-1, s) (upstream) and node (k, s) (downstream).
Forward messages: cnt, cph*, qry*; backward messages: rdy*, rsp*.
"""
import threading
import ctypes, hashlib, json, mmap, os, random, select, re, shutil, signal, socket, struct, subprocess, tempfile, time
import sodium

SECRET = 76           # tag 8, next tag 8, x 4, y 4, mask 52
LAYER = SECRET + sodium.SEAL
PRIME = 2147483647

class InfraError(Exception):
    """The run could not be carried out (ports, ...): retry, never a verdict."""

def words(b):
    return list(struct.unpack("<%dH" % (len(b) // 2), b))

def unwords(w):
    return struct.pack("<%dH" % len(w), *w)

def i31(v):
    return v if v < 2**31 else -1

class Scenario:
    """Everything that determines a run. All fields are JSON-able."""
    FIELDS = dict(name="", P=2, S=1, db=3, eps=0.0, delta=0.0, noise=0, nmax=-1, q=[1], stage="all",
                  seed=1, variant="std", real="all", holds=[], read={}, write={}, sockbuf=0,
                  sib="direct", sibhold=None, clock=0, kill=None, tamper=None, seeds=None, order=None,
                  cipher_via=None, boundary=False, sim_keys=None, policy="free", timeout=0, script=None, sibtamper=None, rngmode="", late=None)
    def __init__(self, **kw):
        for k, v in self.FIELDS.items():
            setattr(self, k, kw.pop(k, v if not isinstance(v, (list, dict)) else type(v)(v)))
        assert not kw, kw
    def dict(self):
        return {k: getattr(self, k) for k in self.FIELDS}

WRITER = None   # set when the program's own writer has to be used (see probe_config)
def probe_config(exe):
    """The lab writes configurations in the program's layout; if the program reads them differently,
    its own writer is used instead."""
    global WRITER
    import tempfile
    sc = Scenario(P=2, S=2, db=123456, eps=0.1, delta=1e-6)
    keys = [sodium.seed_keypair(bytes([i]) * 32) for i in range(2)]
    d = tempfile.mkdtemp(prefix="dppir-probe-")
    try:
        write_config(d + "/c", sc, keys, [[3, 4], [5, 6]], [[7, 8], [9, 10]], [[11, 12], [[13, 14], [15, 16]]])
        p = subprocess.run([exe, "dump", d + "/c"], capture_output=True, text=True, timeout=30)
        try:
            g = json.loads(p.stdout)["got"]
            ok = (g["db"] == "123456" and g["eps"] == struct.pack("<d", 0.1).hex() and [x["seed"] for x in g["parties"]] == ["11", "12"]
                  and [[y["port"] for y in x["servers"]] for x in g["parties"]] == [[3, 4], [5, 6]]
                  and [[y["pport"] for y in x["servers"]] for x in g["parties"]] == [[7, 8], [9, 10]]
                  and [x["pk"] for x in g["parties"]] == [k[0].hex() for k in keys] and [x["sk"] for x in g["parties"]] == [k[1].hex() for k in keys])
        except (ValueError, KeyError):
            ok = False
        if not ok:
            WRITER = exe
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return WRITER

def write_config(path, sc, keys, ports, pports, seeds):
    if WRITER:
        t = "%d %.17g %.17g %d %d\n" % (sc.db, sc.eps, sc.delta, sc.P, sc.S)
        for k in range(sc.P):
            t += "%d x%sx x%sx\n" % (seeds[0][k], keys[k][0].hex(), keys[k][1].hex())
            for s in range(sc.S):
                t += "%d %d %d\n" % (seeds[1][k][s], ports[k][s], pports[k][s])
        subprocess.run([WRITER, "mk", path], input=t, text=True, stdout=subprocess.DEVNULL, timeout=30)
        return
    out = struct.pack("<idd", sc.db, sc.eps, sc.delta) + struct.pack("<ii", sc.P, sc.S)
    for k in range(sc.P):
        out += struct.pack("<i", seeds[0][k]) + keys[k][0] + keys[k][1]
        for s in range(sc.S):
            out += struct.pack("<iii", seeds[1][k][s], ports[k][s], pports[k][s]) + b"127.0.0.1\0"
    with open(path, "wb") as f:
        f.write(out)

_port_next, _port_lo, _port_hi = None, 10000, 32000
def set_port_block(i, n):
    """Concurrent workers take ports from disjoint blocks."""
    global _port_next, _port_lo, _port_hi
    w = 22000 // n
    _port_next, _port_lo, _port_hi = None, 10000 + i * w, 10000 + (i + 1) * w

_port_lock = threading.Lock()
def alloc_ports(n, rng):
    """n ports that nobody is using, outside the ephemeral range."""
    with _port_lock:
        return _alloc_ports(n)

def _alloc_ports(n):
    global _port_next
    if _port_next is None:
        _port_next = _port_lo + (os.getpid() * 7919) % (_port_hi - _port_lo)
    res = []
    tries = 0
    while len(res) < n:
        tries += 1
        if tries > 30000:
            raise InfraError("no ports")
        _port_next += 1
        if _port_next >= _port_hi:
            _port_next = _port_lo
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("0.0.0.0", _port_next))
            res.append(_port_next)
        except OSError:
            pass
        finally:
            s.close()
    return res

class Link:
    def __init__(self, lab, k, s):
        self.lab, self.k, self.s = lab, k, s
        sc = lab.sc
        self.up_real, self.down_real = lab.is_real((k - 1, s)), lab.is_real((k, s))
        self.active = self.up_real or self.down_real
        self.up = self.down = self.lsock = None
        self.up_eof = self.down_eof = False
        self.inb = {"f": bytearray(), "b": bytearray()}   # unparsed received bytes
        self.outb = {"f": bytearray(), "b": bytearray()}  # delivered, not yet written
        self.queue = {"f": [], "b": []}                    # parsed, not delivered
        self.cnt = None
        self.n = {"cph": 0, "qry": 0, "rdy": 0, "rsp": 0}   # parsed so far
        self.dn = {"cnt": 0, "cph": 0, "qry": 0, "rdy": 0, "rsp": 0}
        self.csize = LAYER * (sc.P - k)
        self.extra = {"f": 0, "b": 0}
        self.connected = False

    # -- parsing ---------------------------------------------------------
    def next_kind(self, d):
        sc = self.lab.sc
        off, on = sc.stage != "online", sc.stage != "offline"
        if d == "f":
            if self.cnt is None:
                return "cnt", 4
            if off and self.n["cph"] < self.cnt:
                return "cph", self.csize
            if on and self.n["qry"] < self.cnt:
                return "qry", 12
        else:
            if self.n["rdy"] < (2 if off else 1):
                return "rdy", 1
            if on and (self.cnt is None or self.n["rsp"] < self.cnt):
                return "rsp", 52
        return None, 0

    def feed(self, d, data):
        buf = self.inb[d]
        buf += data
        while True:
            kind, size = self.next_kind(d)
            if kind is None:
                if buf:
                    if self.extra[d] == 0:
                        self.lab.log({"t": "E", "k": self.k, "s": self.s, "d": d})
                    self.extra[d] += len(buf)
                    del buf[:]
                return
            if len(buf) < size:
                return
            raw = bytes(buf[:size])
            del buf[:size]
            if kind == "cnt":
                self.cnt = struct.unpack("<I", raw)[0]
                idx = 0
            else:
                idx = self.n[kind]
                self.n[kind] += 1
            self.sent(d, kind, idx, raw)

    def sent(self, d, kind, idx, raw):
        m = self.lab.message(self, kind, raw)
        self.lab.log({"t": "S", "k": self.k, "s": self.s, "m": kind, "i": m})
        self.queue[d].append((kind, idx, raw, m))
        self.pump(d)

    def last_index(self, kind):
        if kind in ("cph", "qry", "rsp"):
            return (self.cnt or 0) - 1
        return None

    def held(self, d):
        kind, idx, _, _ = self.queue[d][0]
        return self.lab.is_held(self, d, kind, idx)

    def pump(self, d):
        while self.queue[d] and not self.held(d):
            self.deliver(d)

    def deliver(self, d):
        kind, idx, raw, m = self.queue[d].pop(0)
        lab = self.lab
        raw2 = lab.tampered(self, kind, idx, raw)
        if raw2 is not None and raw2 != raw:
            m = lab.message(self, kind, raw2)
            lab.log({"t": "T", "k": self.k, "s": self.s, "m": kind, "i": m})
            raw = raw2
        lab.log({"t": "D", "k": self.k, "s": self.s, "m": kind, "i": m})
        self.dn[kind] += 1
        if (d == "f" and self.down_real) or (d == "b" and self.up_real):
            self.outb[d] += raw
        else:
            lab.env.delivered(self, d, kind, idx, raw, m)
        lab.activity()

class SibLink:
    """Raw relay between sibling servers a < b of party k (only in sib='proxy' mode)."""
    def __init__(self, lab, k, a, b):
        self.lab, self.k, self.a, self.b = lab, k, a, b
        self.up = self.down = self.lsock = None   # up: socket from a, down: to b
        self.outb = {"f": bytearray(), "b": bytearray()}
        self.passed = {"f": 0, "b": 0}
        self.eof = {"f": False, "b": False}
        self.limit = {"f": None, "b": None}
        self.cap = lab.sc.sockbuf or 1 << 22

class Lab:
    def __init__(self, sc, program, keepdir=None):
        self.sc, self.program = sc, program
        self.rng = random.Random(sc.seed * 1000003 + 17)
        self.dir = tempfile.mkdtemp(prefix="dppir-lab-")
        self.ev, self.msgs, self.procs, self.rc = [], [], {}, {}
        self.last = time.time()
        P, S = sc.P, sc.S
        self.keys = [sodium.seed_keypair(hashlib.sha256(b"k%d-%d" % (sc.seed, k)).digest()) for k in range(P)]
        self.nodes = [(k, s) for k in range(-1, P) for s in range(S)]
        self.real = set(self.nodes) if sc.real == "all" else {tuple(n) for n in sc.real}
        self.links = {(k, s): Link(self, k, s) for k in range(P) for s in range(S)}
        self.links = {key: l for key, l in self.links.items() if l.active}
        self.sibs = []
        self.hold_rules = [dict(h) for h in sc.holds]
        self.held_now = False
        self.released = 0
        self.opened = {}
        self.ids = {}
        self.env = Env(self)
        self.tamper_done = False
        self.kill_done = False
        self.hang = None
        self.script = list(sc.script or [])
        self.offscript = 0
        self.now = 0
        if sc.clock:
            with open(os.path.join(self.dir, "clock"), "wb+") as f:
                f.write(bytes(8))
                f.flush()
                self.clockmap = mmap.mmap(f.fileno(), 8)

    def is_real(self, n):
        return n in self.real

    def log(self, e):
        self.ev.append(e)
        self.last = time.time()

    def activity(self):
        self.last = time.time()

    # -- messages ----------------------------------------------------------
    def cid(self, raw):
        h = hashlib.sha256(raw).hexdigest()[:16]
        return self.ids.setdefault(h, len(self.ids) + 1)

    def message(self, link, kind, raw):
        """Adds the message to the table, returns its 1-based index."""
        if kind == "cnt":
            m = {"n": i31(struct.unpack("<I", raw)[0])}
        elif kind == "rdy":
            m = {"v": raw[0], "w": self.withheld(link.k) if link.down_real else 0}
        elif kind == "qry":
            tag, tally = struct.unpack("<QI", raw)
            m = {"tag": str(tag), "tally": i31(tally)}
        elif kind == "rsp":
            m = {"w": words(raw)}
        else:
            lay, cur, ids = [], raw, []
            for j in range(link.k, self.sc.P):
                ids.append(self.cid(cur))
                pt = sodium.seal_open(cur, *self.keys[j])
                if pt is None:
                    break
                tag, nxt, x, y = struct.unpack("<QQII", pt[:24])
                lay.append({"tag": str(tag), "next": str(nxt), "x": i31(x), "y": i31(y), "pre": words(pt[24:SECRET])})
                cur = pt[SECRET:]
            m = {"id": ids[0], "inner": ids[1] if len(ids) > 1 else 0, "lay": lay,
                 "ok": len(lay) == self.sc.P - link.k and cur == b""}
        self.msgs.append(m)
        return len(self.msgs)

    # -- schedule ------------------------------------------------------------
    def is_held(self, link, d, kind, idx):
        for h in self.hold_rules:
            if h["k"] == link.k and h["s"] == link.s and h["m"] == kind:
                i = h.get("i", "last")
                if i == "last":
                    if idx == link.last_index(kind) or kind in ("cnt",):
                        return True
                elif i == "all" or i == idx:
                    return True
        if self.sc.script is not None:
            return True
        if self.sc.policy == "random":
            key = (link.k, link.s, d, kind, idx)
            h = hashlib.sha256(repr((self.sc.seed, key)).encode()).digest()
            if h[0] < 40 and key not in self.freed:
                return True
        return False

    freed = frozenset()

    def release(self):
        """Called at quiescence: lets one held message pass. False if nothing is held."""
        if self.sc.kill and self.sc.kill.get("when") == "held" and not self.kill_done:
            return self.crash()
        cands = [(l, d) for l in self.links.values() for d in "fb" if l.queue[d] and l.held(d)]
        if cands and self.sc.clock:
            self.tick()
        if not cands:
            for sl in self.sibs:
                for d in "fb":
                    if sl.limit[d] is not None and (len(sl.outb[d]) > 0):
                        sl.limit[d] = None
                        self.released += 1
                        self.activity()
                        return True
            return False
        l, d = self.rng.choice(cands)
        if self.sc.script is not None:
            # the next message of the script that is available
            for i, (k, s, m, x) in enumerate(self.script):
                hit = [(c, e) for (c, e) in cands if (c.k, c.s) == (k, s) and c.queue[e][0][0] == m]
                if hit:
                    l, d = hit[0]
                    if i > 0:
                        self.offscript += 1
                    del self.script[i]
                    break
            self.released += 1
            l.deliver(d)
            return True
        kind, idx, _, _ = l.queue[d][0]
        if self.sc.policy == "random":
            self.freed = self.freed | {(l.k, l.s, d, kind, idx)}
        self.hold_rules = [h for h in self.hold_rules if not (
            h["k"] == l.k and h["s"] == l.s and h["m"] == kind and h.get("i", "last") in ("last", "all", idx))]
        self.released += 1
        l.deliver(d)
        l.pump(d)
        return True

    def tick(self):
        """Time passes (for the processes, which read the time from the file)."""
        d = self.rng.randrange(1, self.sc.clock)
        self.now += d
        self.clockmap[:8] = struct.pack("<q", self.now)
        self.ev.append({"t": "C", "d": d})

    def crash(self):
        """The sender of what is held dies; what was under way is lost, but for some bytes."""
        n = tuple(self.sc.kill["node"])
        self.kill_done = True
        if n in self.procs and self.procs[n].poll() is None:
            os.killpg(self.procs[n].pid, signal.SIGKILL)
        self.log({"t": "K", "k": n[0], "s": n[1]})
        for l in self.links.values():
            for d, who in (("f", (l.k - 1, l.s)), ("b", (l.k, l.s))):
                if who == n and l.queue[d]:
                    l.outb[d] += l.queue[d][0][2][:self.sc.kill.get("part", 0)] if len(l.queue[d][0][2]) > self.sc.kill.get("part", 0) else b""
                    del l.queue[d][:]
        return True

    def tampered(self, link, kind, idx, raw):
        t = self.sc.tamper
        if not t or self.tamper_done:
            return None
        if "each" in t:     # one alteration per server
            if (t["k"], t["m"]) != (link.k, kind) or idx != t.get("i", 0):
                return None
            byte, xor = t["each"][link.s]
            self.tampered_each = getattr(self, "tampered_each", 0) + 1
            self.tamper_done = self.tampered_each == self.sc.S
            raw = bytearray(raw)
            raw[byte % len(raw)] ^= xor
            return bytes(raw)
        if (t["k"], t["s"], t["m"]) != (link.k, link.s, kind) or idx != t.get("i", 0):
            return None
        self.tamper_done = True
        b = bytearray(raw)
        b[t["byte"] % len(b)] ^= t.get("xor", 1)
        return bytes(b)

    # -- processes ------------------------------------------------------------
    def start(self):
        sc = self.sc
        P, S = sc.P, sc.S
        np = P * S
        ports = alloc_ports(4 * np + P * S * S, self.rng)
        grid = lambda o: [[ports[o + k * S + s] for s in range(S)] for k in range(P)]
        self.rport, self.lport, self.rpport = grid(0), grid(np), grid(2 * np)
        self.dead = grid(3 * np)
        extra = ports[4 * np:]
        if sc.seeds:
            seeds = sc.seeds
        else:
            r = random.Random(sc.seed)
            seeds = [[r.randrange(1, 10**6) for _ in range(P)], [[r.randrange(1, 10**6) for _ in range(S)] for _ in range(P)]]
        # processes that start late: until then, connections to them are refused
        late = sc.late["nodes"] if sc.late else []
        for l in self.links.values():
            if l.up_real:
                l.lsock = self.listen(self.lport[l.k][l.s], [l.k, l.s] not in late)
        sibport = {}
        if sc.sib == "proxy":
            for k in range(P):
                for a in range(S):
                    for b in range(a + 1, S):
                        if (k, a) in self.real and (k, b) in self.real:
                            sl = SibLink(self, k, a, b)
                            p = extra.pop()
                            sl.lsock = self.listen(p)
                            sibport[(k, a, b)] = p
                            self.sibs.append(sl)
                            if sc.sibhold and sc.sibhold["k"] == k and {a, b} == {sc.sibhold["from"], sc.sibhold["to"]}:
                                d = "f" if sc.sibhold["from"] == a else "b"
                                sl.limit[d] = sc.sibhold["at"]
        order = [n for n in self.nodes if n in self.real]
        if sc.order is not None:
            random.Random(sc.order).shuffle(order)
        order = [n for n in order if list(n) not in late] + [None] + [n for n in order if list(n) in late]
        for n in order:
            if n is None:
                if late:
                    time.sleep(sc.late["ms"] / 1000.0)
                    for l in self.links.values():
                        if l.up_real and [l.k, l.s] in late:
                            l.lsock.listen(8)
                continue
            k, s = n
            po = [row[:] for row in self.rport]
            pp = [row[:] for row in self.rpport]
            if k + 1 < P:
                po[k + 1] = self.lport[k + 1]
            for j in range(P):
                if j not in (k, k + 1):
                    po[j] = self.dead[j]
            for (kk, a, b), p in sibport.items():
                if kk == k and a == s:
                    pp[k][b] = p
            cfg = os.path.join(self.dir, "c%d_%d" % n)
            write_config(cfg, sc, self.keys, po, pp, seeds)
            cmd = [self.program, "--config=" + cfg, "--stage=" + sc.stage, "--server_id=%d" % s]
            if k == -1:
                cmd += ["--role=client", "--queries=%d" % sc.q[s]]
            else:
                cmd += ["--role=party", "--party_id=%d" % k]
            name = "%d_%d" % n
            env = dict(os.environ, LAB_RNG=str(sc.seed * 1009 + (k + 1) * 101 + s),
                       LAB_READ=sc.read.get(name, sc.read.get("*", "full")),
                       LAB_WRITE=sc.write.get(name, sc.write.get("*", "full")),
                       ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=2000")
            if sc.clock:
                env["LAB_CLOCK"] = os.path.join(self.dir, "clock")
            if sc.rngmode:
                env["LAB_RNGMODE"] = sc.rngmode
            if sc.sockbuf:
                env["LAB_SOCKBUF"] = str(sc.sockbuf)
            out = open(os.path.join(self.dir, "o%d_%d" % n), "wb")
            self.procs[n] = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT,
                                             env=env, cwd=self.dir, start_new_session=True, preexec_fn=limits)
            out.close()

    def listen(self, port, now=True):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(("127.0.0.1", port))
        except OSError as e:
            raise InfraError(str(e))
        if now:
            s.listen(8)
        s.setblocking(False)
        return s

    def try_connect(self, port):
        s = socket.socket()
        if self.sc.sockbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, self.sc.sockbuf)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, self.sc.sockbuf)
        try:
            s.connect(("127.0.0.1", port))
        except OSError:
            s.close()
            return None
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.setblocking(False)
        return s

    def output(self, n):
        try:
            with open(os.path.join(self.dir, "o%d_%d" % n), "rb") as f:
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def reap(self):
        for n, p in self.procs.items():
            if n not in self.rc:
                rc = p.poll()
                if rc is not None:
                    self.rc[n] = rc
                    ok = rc == 0
                    self.exits.append((n, ok))
                    self.last = time.time()

    def log_exits(self):
        """Exit events are logged only after everything the process sent was read."""
        for n, ok in list(self.exits):
            k, s = n
            pend = False
            for l in self.links.values():
                if (l.k, l.s) == n and l.down is not None and not l.down_eof:
                    pend = True
                if (l.k - 1, l.s) == n and l.up is not None and not l.up_eof:
                    pend = True
            if not pend:
                self.exits.remove((n, ok))
                self.log({"t": "X", "k": k, "s": s, "ok": ok})

    def states(self):
        st = []
        for n, p in self.procs.items():
            if n in self.rc:
                continue
            try:
                with open("/proc/%d/stat" % p.pid) as f:
                    st.append(f.read().rsplit(")", 1)[1].split()[0])
            except OSError:
                st.append("X")
        return st

    # -- main loop --------------------------------------------------------------
    def run(self):
        try:
            return self._run()
        finally:
            self.cleanup()

    def cleanup(self):
        for n, p in self.procs.items():
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        for l in list(self.links.values()) + self.sibs:
            for x in (l.up, l.down, l.lsock):
                if x is not None:
                    x.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def wire(self):
        for l in list(self.links.values()) + self.sibs:
            is_sib = isinstance(l, SibLink)
            if l.up is None and l.lsock is not None:
                try:
                    c, _ = l.lsock.accept()
                    c.setblocking(False)
                    c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    l.up = c
                    l.lsock.close()
                    l.lsock = None
                    self.activity()
                except BlockingIOError:
                    pass
            up_ok = l.up is not None or (not is_sib and not l.up_real)
            if l.down is None and up_ok and (is_sib or l.down_real):
                port = self.rpport[l.k][l.b] if is_sib else self.rport[l.k][l.s]
                dead = (l.k, l.b) in self.rc if is_sib else (l.k, l.s) in self.rc
                if not dead:
                    l.down = self.try_connect(port)
                    if l.down is not None:
                        self.activity()
            if not is_sib and not l.connected and up_ok and (l.down is not None or not l.down_real):
                l.connected = True
                self.env.connected(l)

    def allwired(self):
        for l in self.links.values():
            if not l.connected:
                return False
        return all(s.up is not None and s.down is not None for s in self.sibs)

    def pump_io(self, timeout):
        rd, wr, who = [], [], {}
        for l in self.links.values():
            for sock, d, eof in ((l.up, "f", l.up_eof), (l.down, "b", l.down_eof)):
                if sock is not None and not eof:
                    rd.append(sock)
                    who[sock.fileno()] = (l, d)
            if l.outb["f"] and l.down is not None and not l.down_eof:
                wr.append(l.down)
            if l.outb["b"] and l.up is not None and not l.up_eof:
                wr.append(l.up)
        for s in self.sibs:
            for sock, d in ((s.up, "f"), (s.down, "b")):
                if sock is not None and not s.eof[d] and len(s.outb[d]) < s.cap:
                    rd.append(sock)
                    who[sock.fileno()] = (s, d)
            for d, sock in (("f", s.down), ("b", s.up)):
                if s.outb[d] and sock is not None and self.sib_allow(s, d) > 0:
                    wr.append(sock)
        if not rd and not wr:
            time.sleep(timeout)
            return
        r, w, _ = select.select(rd, wr, [], timeout)
        for sock in r:
            if sock.fileno() < 0:
                continue
            l, d = who[sock.fileno()]
            try:
                data = sock.recv(l.cap - len(l.outb[d]) if isinstance(l, SibLink) else 1 << 20)
            except (BlockingIOError, InterruptedError):
                continue
            except OSError:
                data = b""
            if isinstance(l, SibLink):
                if not data:
                    l.eof[d] = True
                    self.sib_close(l, d)
                else:
                    l.outb[d] += data
                    self.activity()
                continue
            if not data:
                if d == "f":
                    l.up_eof = True
                else:
                    l.down_eof = True
                self.activity()
                self.propagate_eof(l)
                continue
            self.activity()
            l.feed(d, data)
        for l in self.links.values():
            for d, sock, eof in (("f", l.down, l.down_eof), ("b", l.up, l.up_eof)):
                if l.outb[d] and sock is not None and not eof:
                    try:
                        n = sock.send(bytes(l.outb[d][:1 << 18]))
                        del l.outb[d][:n]
                        self.activity()
                    except (BlockingIOError, InterruptedError):
                        pass
                    except OSError:
                        del l.outb[d][:]
            self.propagate_eof(l)
        for s in self.sibs:
            for d, sock in (("f", s.down), ("b", s.up)):
                n = min(len(s.outb[d]), self.sib_allow(s, d))
                if n > 0 and sock is not None:
                    try:
                        n = sock.send(bytes(s.outb[d][:min(n, 1 << 16)]))
                        del s.outb[d][:n]
                        s.passed[d] += n
                        self.activity()
                    except (BlockingIOError, InterruptedError):
                        pass
                    except OSError:
                        del s.outb[d][:]
                self.sib_close(s, d)

    def withheld(self, k):
        """bytes between two siblings of party k that have been sent and are held back (largest such amount)"""
        most = 0
        for s in self.sibs:
            for d, sock in (("f", s.up), ("b", s.down)):
                if s.k == k and s.limit[d] is not None:
                    if sock is not None and not s.eof[d] and len(s.outb[d]) < s.cap:
                        try:
                            s.outb[d] += sock.recv(s.cap - len(s.outb[d]))
                        except OSError:
                            pass
                    most = max(most, len(s.outb[d]) - self.sib_allow(s, d))
        return most

    def sib_allow(self, s, d):
        return (1 << 30) if s.limit[d] is None else max(0, s.limit[d] - s.passed[d])

    def sib_close(self, s, d):
        if s.eof[d] and not s.outb[d]:
            sock = s.down if d == "f" else s.up
            try:
                if sock is not None:
                    sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass

    def propagate_eof(self, l):
        for eof, d, sock in ((l.up_eof, "f", l.down), (l.down_eof, "b", l.up)):
            if eof and not l.queue[d] and not l.outb[d] and sock is not None:
                try:
                    sock.shutdown(socket.SHUT_WR)
                except OSError:
                    pass

    def maybe_kill(self):
        kl = self.sc.kill
        if kl and "at" in kl and not self.kill_done and len(self.ev) >= kl["at"]:
            n = tuple(kl["node"])
            self.kill_done = True
            if n in self.procs and self.procs[n].poll() is None:
                os.killpg(self.procs[n].pid, signal.SIGKILL)
                self.log({"t": "K", "k": n[0], "s": n[1]})

    def _run(self):
        sc = self.sc
        self.exits = []
        faulty = bool(sc.kill or sc.tamper or sc.sibtamper)
        self.start()
        t0 = time.time()
        self.last = t0
        idle_limit = sc.timeout or 12.0
        spin_limit = sc.timeout or 60.0
        while True:
            self.wire()
            self.env.step()
            self.pump_io(0.004)
            self.reap()
            self.log_exits()
            self.maybe_kill()
            for n, rc in self.rc.items():
                if rc != 0 and "Address already in use" in self.output(n):
                    raise InfraError("port in use")
            if len(self.rc) == len(self.procs) and not self.exits and self.env.done():
                break
            if faulty and any(n in self.rc for n in self.procs):
                clients = [n for n in self.procs if n[0] == -1 and not (sc.kill and n == tuple(sc.kill["node"]))] or [None]
                if all(n in self.rc for n in clients) and not self.exits and time.time() - self.last > 0.15:
                    break
            idle = time.time() - self.last
            bad = [n for n, rc in self.rc.items() if rc != 0]
            if bad and idle > (0.4 if faulty else 1.0):
                break      # somebody failed and nothing moves any more
            if faulty and self.fault_happened() and idle > 0.6:
                break
            if idle > 0.03 and self.allwired_or_dead():
                st = self.states()
                if all(c == "S" for c in st):
                    self.pump_io(0.012)
                    if time.time() - self.last > 0.03 and all(c == "S" for c in self.states()):
                        if self.release():
                            continue
                        if time.time() - self.last > idle_limit:
                            self.hang = "idle"
                            break
            if idle > spin_limit:
                self.hang = "spin"
                break
        for n, ok in self.exits:
            self.log({"t": "X", "k": n[0], "s": n[1], "ok": ok})
        self.exits = []
        self.ev.append({"t": "Z"})
        return self.trace(time.time() - t0)

    def fault_happened(self):
        return self.kill_done or self.tamper_done

    def allwired_or_dead(self):
        return self.allwired() or time.time() - self.last > 1.0

    def trace(self, wall):
        sc = self.sc
        outs = {}
        for n in self.procs:
            o = self.output(n)
            if self.rc.get(n, 1) != 0:
                outs["%d_%d" % n] = o[-1500:]
        times = {}
        if sc.clock:
            for n in self.procs:
                o = self.output(n)
                times["%d_%d" % n] = [[min(int(v), 2**31 - 1) for v in re.findall(r"%s time: ([0-9]+)ms" % w, o)] for w in ("Offline", "Online")]
        return {"name": sc.name, "P": sc.P, "S": sc.S, "db": sc.db, "noise": sc.noise, "nmax": sc.nmax,
                "stage": sc.stage, "q": sc.q, "faulty": bool(sc.kill or sc.tamper or sc.sibtamper), "crash": bool(sc.kill and not (sc.tamper or sc.sibtamper)),
                "tk": sc.tamper["k"] if sc.tamper and sc.tamper["m"] == "cph" else -9,
                "real": [[k, s] for (k, s) in sorted(self.real)],
                "msgs": self.msgs, "ev": self.ev,
                "aux": {"times": times, "hang": self.hang or "", "rc": {"%d_%d" % n: rc for n, rc in self.rc.items()},
                        "out": outs, "wall": round(wall, 3), "released": self.released, "scenario": sc.dict()}}

_libc = ctypes.CDLL(None)
def limits():
    import resource
    _libc.prctl(1, signal.SIGKILL)     # ends with its controller
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

class Env:
    """Plays the roles that are not real: predecessors (clients or parties before the
    real ones) and successors (parties after them)."""
    def __init__(self, lab):
        self.lab = lab
        self.rng = random.Random(lab.sc.seed * 31 + 7)
        self.up = [l for l in lab.links.values() if not l.up_real and l.active]
        self.downl = [l for l in lab.links.values() if not l.down_real and l.active]
        self.ready = {}
        self.queries_sent = False
        self.secrets = None
        self.known, self.asked = {}, {}
        self.resp_sent = False

    def done(self):
        return True

    def connected(self, l):
        if not l.up_real:
            n = self.input_count(l)
            l.cnt = n
            l.sent("f", "cnt", 0, struct.pack("<I", n))

    def input_count(self, l):
        return self.lab.sc.q[l.s]

    # deliveries to env nodes
    def delivered(self, l, d, kind, idx, raw, m):
        sc = self.lab.sc
        if d == "b":       # env is upstream
            if kind == "rdy":
                self.ready[(l.k, l.s)] = self.ready.get((l.k, l.s), 0) + 1
        else:
            off = sc.stage != "online"
            if kind == "cph":
                msg = self.lab.msgs[m - 1]
                if msg["lay"]:
                    self.known[(l.s, msg["lay"][0]["tag"])] = msg["lay"]
            if kind == "qry":
                self.asked.setdefault(l.s, []).append(self.lab.msgs[m - 1])
            if kind == "cnt":
                l.n["rdy"] += 1
                l.sent("b", "rdy", 0, b"\1")
            if off and l.n["rdy"] == 1 and l.dn["cph"] == l.cnt:
                l.n["rdy"] += 1
                l.sent("b", "rdy", 1, b"\1")
            elif not off:
                pass

    def step(self):
        sc, lab = self.lab.sc, self.lab
        off, on = sc.stage != "online", sc.stage != "offline"
        if self.up:
            if off and self.secrets is None and all(self.ready.get((l.k, l.s), 0) >= 1 for l in self.up):
                self.make_secrets()
                for l in self.up:
                    for raw in self.cipher_raw[l.s]:
                        l.n["cph"] += 1
                        l.sent("f", "cph", l.n["cph"] - 1, raw)
            need = 2 if off else 1
            if on and not self.queries_sent and all(self.ready.get((l.k, l.s), 0) >= need for l in self.up):
                self.queries_sent = True
                for l in self.up:
                    for (tag, tally) in self.query_plan()[l.s]:
                        l.n["qry"] += 1
                        l.sent("f", "qry", l.n["qry"] - 1, struct.pack("<QI", tag, tally))
        if self.downl and on and not self.resp_sent:
            if all(l.cnt is not None and l.dn["qry"] == l.cnt and l.dn["cnt"] for l in self.downl):
                self.resp_sent = True
                for l in self.downl:
                    for j in range(l.cnt):
                        raw = self.rng.randbytes(52)
                        if l.up_real and l.k == 0:
                            raw = self.client_answer(l, j)
                        elif sc.boundary and j % 3 == 0:
                            raw = b"\xff" * 50 + struct.pack("<H", j)
                        l.n["rsp"] += 1
                        l.sent("b", "rsp", j, raw)

    def client_answer(self, l, j):
        """The right answer to a real client's j-th query, when everything after it is played."""
        q = self.asked[l.s][j]
        key, mask = q["tally"], [0] * 26
        for lay in self.known.get((l.s, q["tag"]), []):
            key = (key * lay["y"] + lay["x"]) % PRIME
            mask = [a ^ b for a, b in zip(mask, lay["pre"])]
        row = words(struct.pack("<I", (2 * key) % 2**32) + bytes([key % 128]) * 48)
        return unwords([a ^ b for a, b in zip(row, mask)])

    def rand_tag(self, used, first):
        while True:
            c = self.rng.random()
            if c < 0.25:
                t = self.rng.randrange(0, 40)
            elif c < 0.5:
                t = self.rng.randrange(2**63, 2**64)
            else:
                t = self.rng.randrange(0, 2**40)
            if not first:   # keep clear of the identifiers real parties choose for their noise
                t = self.rng.randrange(2**56, 2**64)
            if t not in used:
                used.add(t)
                return t

    def make_secrets(self):
        """Secrets for all input ciphers; k0 is the first real party."""
        sc, lab = self.lab.sc, self.lab
        k0 = self.up[0].k
        total = sum(self.input_count(l) for l in self.up)
        used = [set() for _ in range(sc.P + 1)]
        self.secrets = []
        for i in range(total):
            tags = [self.rand_tag(used[j], j == k0) for j in range(k0, sc.P + 1)]
            lays = []
            for j in range(k0, sc.P):
                x, y = self.rng.randrange(PRIME), 1 + self.rng.randrange(PRIME - 1)
                if sc.boundary:
                    x, y = [(0, 1), (PRIME - 1, PRIME - 1), (0, PRIME - 1), (PRIME - 1, 1), (x, y), (1, 2)][(i + j) % 6]
                pre = self.rng.randbytes(52)
                lays.append((tags[j - k0], tags[j - k0 + 1], x, y, pre))
            raw = b""
            for j in range(sc.P - 1, k0 - 1, -1):
                t, n, x, y, pre = lays[j - k0]
                raw = sodium.seal(struct.pack("<QQII", t, n, x, y) + pre + raw, lab.keys[j][0])
            self.secrets.append((lays, raw))
        order = list(range(total))
        self.rng.shuffle(order)
        if sc.cipher_via == "same":
            order = list(range(total))
        self.cipher_raw, pos = {}, 0
        for l in self.up:
            n = self.input_count(l)
            self.cipher_raw[l.s] = [self.secrets[i][1] for i in order[pos:pos + n]]
            pos += n

    def query_plan(self):
        """server -> list of (tag, tally)."""
        sc, lab = self.lab.sc, self.lab
        k0 = self.up[0].k
        total = sum(self.input_count(l) for l in self.up)
        res, i = {}, 0
        backend_real = any(n[0] == sc.P - 1 for n in lab.real)
        order = list(range(total))
        for l in self.up:
            res[l.s] = []
            for _ in range(self.input_count(l)):
                key = self.rng.randrange(sc.db) if backend_real else self.rng.randrange(PRIME)
                if self.secrets is None:
                    tally = key if backend_real else sc.db + 7 + i   # distinct from noise
                    tag = 0
                else:
                    lays = self.secrets[order[i]][0]
                    tag = lays[0][0]
                    t = key
                    for (_, _, x, y, _) in reversed(lays):
                        t = ((t - x) % PRIME) * pow(y, PRIME - 2, PRIME) % PRIME
                    tally = t
                    if sc.boundary and not backend_real:
                        tally = [0, 1, PRIME - 1, PRIME - 2, tally][i % 5]
                res[l.s].append((tag, tally))
                i += 1
        return res

def run_scenario(sc, program, attempts=4):
    err = None
    for _ in range(attempts):
        try:
            return Lab(sc, program).run()
        except InfraError as e:
            err = e
            time.sleep(0.2)
    raise err
