"""Scenario families. Every family returns a list of Scenario; names are made unique here."""
import math, random
from lab import Scenario

def eps_delta(n):
    """Privacy parameters for which the default build adds n noise queries per row."""
    return (2.0, math.exp(-(n + 0.5))) if n > 0 else (0.0, 0.0)

def sc(fam, P, S, db, n, q, stage="all", **kw):
    e, d = eps_delta(n)
    name = "%s-P%dS%d-db%d-n%d-q%s-%s" % (fam, P, S, db, n, "_".join(map(str, q)), stage)
    return Scenario(name=name, P=P, S=S, db=db, eps=e, delta=d, noise=n, q=list(q), stage=stage, **kw)

def nodes(P, S, clients=True):
    return [(k, s) for k in range(-1 if clients else 0, P) for s in range(S)]

def base(rng, n):
    """All roles real, free running; topology, load, noise and stage vary."""
    fixed = [
        (2, 1, 3, 2, [2], "all"), (2, 1, 1, 1, [1], "all"), (2, 1, 4, 0, [3], "online"), (2, 1, 3, 2, [0], "all"),
        (3, 1, 4, 1, [3], "all"), (4, 1, 3, 2, [2], "all"), (3, 1, 3, 2, [2], "online"), (3, 1, 3, 1, [2], "offline"),
        (2, 2, 4, 2, [2, 3], "all"), (3, 2, 5, 1, [3, 1], "all"), (2, 3, 5, 1, [2, 0, 3], "all"), (2, 4, 5, 1, [1, 2, 0, 3], "all"),
        (3, 2, 4, 2, [0, 3], "online"), (3, 3, 7, 1, [1, 4, 2], "online"), (2, 2, 3, 0, [4, 0], "all"), (3, 2, 3, 0, [0, 0], "all"),
        (2, 3, 4, 1, [0, 0, 0], "all"), (3, 2, 4, 1, [2, 1], "offline"), (4, 2, 3, 1, [1, 2], "all"), (2, 4, 9, 0, [5, 0, 1, 0], "online"),
        (2, 1, 140, 0, [12], "all"), (3, 2, 140, 0, [6, 8], "online"), (2, 2, 70000, 0, [5, 4], "all"), (2, 1, 40000, 0, [6], "online"),
        (3, 3, 3, 3, [2, 2, 2], "all"), (5, 1, 2, 1, [2], "all"), (2, 2, 2, 9, [1, 1], "all"),
    ]
    res = [sc("base", P, S, db, nz, q, st, seed=i + 1) for i, (P, S, db, nz, q, st) in enumerate(fixed)]
    while len(res) < n:
        P, S = rng.choice([2, 2, 3, 3, 4]), rng.choice([1, 1, 2, 2, 3, 4])
        db = rng.randrange(S, S + 6)
        nz = rng.choice([0, 1, 1, 2, 3])
        if P * S * db * nz > 90:
            nz = min(nz, 1)
        q = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(S)]
        res.append(sc("base", P, S, db, nz, q, rng.choice(["all", "all", "online", "offline"]), seed=rng.randrange(1, 10**6)))
    return res[:n]

def bounds(rng, n):
    """Shares and masks at the ends of their range."""
    res = []
    while len(res) < n:
        P, S = rng.choice([2, 3, 4]), rng.choice([1, 1, 2, 3])
        db = rng.choice([S, S + 1, S + 3])
        res.append(sc("bounds", P, S, db, rng.choice([0, 1, 2]) if P * S < 7 else 1, [rng.choice([0, 3, 5, 8]) for _ in range(S)], "all",
                      seed=rng.randrange(1, 10**6), rngmode="bound"))
    return res

KINDS = {"all": ["cnt", "rdy0", "rdy1", "cph", "qry", "rsp"], "online": ["cnt", "rdy0", "qry", "rsp"],
         "offline": ["cnt", "rdy0", "rdy1", "cph"]}
def holds(rng, n, kinds=None, noise=(1, 0)):
    """One message (the last of its kind) on one link is held back until nothing else can happen."""
    res = []
    topos = [(2, 1, 3, [2]), (3, 1, 2, [2]), (2, 2, 3, [2, 2]), (3, 2, 3, [2, 1]), (2, 3, 4, [1, 2, 1]), (3, 2, 2, [3, 0]), (3, 2, 3, [0, 3]), (2, 4, 4, [2, 0, 1, 3])]
    for nz in noise:
        for (P, S, db, q) in topos:
            for stage in ("all", "online", "offline"):
                for k in range(P):
                    for s in range(S):
                        for m in KINDS[stage]:
                            if kinds and m[:3] not in kinds:
                                continue
                            if k == 0 and m in ("cph", "qry", "rsp") and q[s] == 0:
                                continue
                            h = {"k": k, "s": s, "m": m[:3], "i": int(m[3]) if m[:3] == "rdy" else "last"}
                            res.append(sc("hold-%d.%d%s" % (k, s, m), P, S, db, nz, q, stage, seed=rng.randrange(1, 10**6), holds=[h]))
    rng.shuffle(res)
    # prefer several servers and the combined stage
    res.sort(key=lambda x: (x.stage == "offline", 0))
    a = [x for x in res if x.stage != "offline"]
    b = [x for x in res if x.stage == "offline"]
    return (a[:n - n // 6] + b[:n // 6])[:n]

def holdall(rng, n):
    """Everything of one kind on one link is held back."""
    res = []
    for (P, S, db, q) in [(2, 2, 3, [2, 2]), (3, 2, 3, [2, 1]), (2, 1, 3, [2]), (3, 1, 2, [2]), (2, 3, 4, [1, 2, 1])]:
        for k in range(P):
            for s in range(S):
                for m in ("cph", "qry", "rsp", "rdy"):
                    res.append(sc("holdall-%d.%d%s" % (k, s, m), P, S, db, rng.choice([0, 1]), q, rng.choice(["all", "all", "online"]),
                                  seed=rng.randrange(1, 10**6), holds=[{"k": k, "s": s, "m": m, "i": "all"}]))
    rng.shuffle(res)
    return res[:n]

def randsched(rng, n):
    """Random messages are delayed until nothing else can happen."""
    res = []
    for _ in range(n):
        P, S = rng.choice([2, 2, 3]), rng.choice([1, 2, 2, 3])
        q = [rng.choice([0, 1, 2, 3]) for _ in range(S)]
        res.append(sc("rand", P, S, rng.randrange(S, S + 3), rng.choice([0, 1]), q, rng.choice(["all", "all", "online", "offline"]),
                      seed=rng.randrange(1, 10**6), policy="random", order=rng.randrange(100)))
    return res

def segment(rng, n):
    """Byte streams are cut into arbitrary pieces on reading and writing."""
    res = []
    for i in range(n):
        P, S = rng.choice([2, 2, 3]), rng.choice([1, 2, 2, 3])
        q = [rng.choice([0, 1, 2, 4]) for _ in range(S)]
        kw = {}
        c = i % 4
        rd = lambda: "rand:%d" % rng.randrange(1, 10**6)
        if c == 0:
            kw = dict(read={"*": "one"})
        elif c == 1:
            kw = dict(read={"*": rd()}, write={"*": rd()})
        elif c == 2:
            kw = dict(read={"%d_%d" % nd: rng.choice(["one", "full", rd()]) for nd in nodes(P, S)},
                      write={"%d_%d" % nd: rng.choice(["one", "full", rd()]) for nd in nodes(P, S)})
        else:
            kw = dict(write={"*": "one"}, read={"*": rd()})
        res.append(sc("seg", P, S, rng.randrange(S, S + 3), rng.choice([0, 1, 2]), q, rng.choice(["all", "all", "online", "offline"]),
                      seed=rng.randrange(1, 10**6), variant=rng.choice(["std", "std", "tiny", "small"]), **kw))
    return res

def buffers(rng, n):
    """Small program buffers and small socket buffers, sibling traffic through a bounded relay."""
    res = []
    for i in range(n):
        P, S = rng.choice([2, 3]), rng.choice([2, 2, 3, 1])
        q = [rng.choice([0, 3, 9, 20, 30]) for _ in range(S)]
        nz = rng.choice([0, 2, 4])
        kw = dict(variant=rng.choice(["small", "tiny", "tiny", "std"]), sockbuf=rng.choice([0, 2048, 4096]), sib=rng.choice(["proxy", "direct"]))
        if P == 3:
            q = [min(x, 9) for x in q]
            nz = min(nz, 2)
        res.append(sc("buf", P, S, rng.randrange(S, S + 4), nz, q, rng.choice(["all", "all", "online", "offline"]), seed=rng.randrange(1, 10**6), **kw))
    return res

def sibholds(rng, n):
    """Traffic between two siblings stops after some bytes until nothing else can happen."""
    res = []
    for i in range(n):
        P, S = rng.choice([2, 2, 3]), rng.choice([2, 2, 3])
        k = rng.randrange(0, P)
        a, b = rng.sample(range(S), 2)
        q = [rng.choice([0, 1, 2, 4]) for _ in range(S)]
        if i % 4 == 0:    # the exchange of secrets in the last party
            S = rng.choice([3, 3, 4])
            a, b = rng.sample(range(S), 2)
            q = [rng.choice([1, 2, 4]) for _ in range(S)]
            res.append(sc("sib-%d.%d-%d" % (P - 1, a, b), P, S, S + 1, rng.choice([0, 1]), q, "all", seed=rng.randrange(1, 10**6), sib="proxy",
                          sibhold={"k": P - 1, "from": a, "to": b, "at": rng.choice([4, 4, 5, 20, 80])}))
            continue
        res.append(sc("sib-%d.%d-%d" % (k, a, b), P, S, rng.randrange(S, S + 3), rng.choice([0, 1, 2]), q, rng.choice(["all", "all", "online"]),
                      seed=rng.randrange(1, 10**6), sib="proxy",
                      sibhold={"k": k, "from": a, "to": b, "at": rng.choice([0, 1, 4, 5, 8, 20, 60, 90, 130, 200, 300, 400])}))
    return res

def orders(rng, n):
    res = []
    for i in range(n):
        P, S = rng.choice([2, 3]), rng.choice([1, 2, 3])
        q = [rng.choice([1, 2]) for _ in range(S)]
        res.append(sc("order", P, S, S + 1, 1, q, rng.choice(["all", "online", "offline"]), seed=rng.randrange(1, 10**6), order=rng.randrange(10**6)))
        if i % 3 == 0:      # some processes are started long after the others
            ns = [[k, s] for k in range(-1, P) for s in range(S)]
            res[-1].late = {"nodes": rng.sample(ns, rng.randrange(1, len(ns))), "ms": rng.choice([300, 1000, 2500])}
    return res

def roles(rng, n, which=("first", "mid", "last", "client", "pair")):
    """Only one party (or the clients) is real; the controller plays its neighbours with
    arbitrary identifiers, shares and masks, including boundary values, and sends queries
    through other servers than their ciphers."""
    res = []
    for i in range(n):
        w = which[i % len(which)]
        P, S = rng.choice([2, 3, 3, 4]), rng.choice([1, 2, 2, 3])
        if w == "mid":
            P = max(P, 3)
        db, nz = rng.randrange(S, S + 5), rng.choice([0, 1, 2])
        q = [rng.choice([0, 1, 2, 3, 6]) for _ in range(S)]
        ks = {"first": [0], "mid": [1], "last": [P - 1], "client": [-1], "pair": [P - 2, P - 1]}[w]
        if w == "client":
            pass
        real = [[k, s] for k in ks for s in range(S)]
        stage = rng.choice(["all", "all", "all", "online", "offline"])
        kw = dict(boundary=rng.random() < 0.6)
        if w != "client" and rng.random() < 0.3:
            k = ks[0]
            m = rng.choice([m for m in ("cph", "qry", "rsp") if m in KINDS[stage] or m[:3] in [x[:3] for x in KINDS[stage]]])
            s = rng.randrange(S)
            if m != "rsp" and q[s] > 0:
                kw["holds"] = [{"k": k, "s": s, "m": m, "i": "last"}]
            elif m == "rsp" and k < P - 1:
                kw["holds"] = [{"k": k + 1, "s": s, "m": m, "i": "last"}]
        res.append(sc("role-" + w, P, S, db, nz, q, stage, seed=rng.randrange(1, 10**6), real=real, **kw))
    return res

def faults(rng, n):
    res = []
    for i in range(n):
        P, S = rng.choice([2, 2, 3]), rng.choice([1, 1, 2])
        q = [rng.choice([1, 2, 3]) for _ in range(S)]
        stage = rng.choice(["all", "all", "online"])
        nz = rng.choice([0, 1, 1])
        db = rng.randrange(max(2, S), S + 4)
        if i % 5 < 3:
            m = rng.choice(["cph", "rsp", "rsp", "qry", "rdy", "cnt"] if stage == "all" else ["rsp", "rsp", "qry", "rdy", "cnt"])
            k, s = rng.randrange(P), rng.randrange(S)
            if m in ("rsp", "qry") and rng.random() < 0.4:
                k = 0
            size = {"cph": 100 * (P - k), "rsp": 52, "qry": 12, "rdy": 1, "cnt": 1}[m]
            t = {"k": k, "s": s, "m": m, "i": rng.choice([0, 0, 1]) if m != "cnt" else 0,
                 "byte": rng.randrange(size) if m != "rsp" or rng.random() < .6 else rng.choice([0, 1, 3, 4, 51, 50]), "xor": rng.choice([1, 128, 255, 1 << rng.randrange(8)])}
            res.append(sc("tamper-%d.%d%s@%d" % (k, s, m, t["byte"]), P, S, db, nz, q, stage, seed=rng.randrange(1, 10**6), tamper=t))
        else:
            nd = rng.choice(nodes(P, S, clients=False))
            res.append(sc("kill-%d.%d" % nd, P, S, db, nz, q, stage, seed=rng.randrange(1, 10**6),
                          kill={"node": list(nd), "at": rng.randrange(0, 30 + 20 * P * S)}))
    return res

def crashes(rng, n):
    """The sender of a batch dies in the middle of it, possibly in the middle of a message."""
    res = []
    for i in range(n):
        P, S = rng.choice([2, 2, 3]), rng.choice([1, 1, 2, 3])
        q = [rng.choice([2, 3, 5]) for _ in range(S)]
        stage = rng.choice(["all", "all", "online", "offline"])
        k, s = rng.randrange(P), rng.randrange(S)
        m = rng.choice([x for x in ("cph", "qry", "rsp", "rsp", "rdy", "cnt") if x in [y[:3] for y in KINDS[stage]]])
        node = [k, s] if m in ("rsp", "rdy") else [k - 1, s]
        idx = 0 if m == "cnt" else rng.choice([0, 1, "last"]) if m != "rdy" else rng.choice([0, 1] if stage != "online" else [0])
        part = rng.choice([0, 0, 1, 7, 40, 51, 99])
        res.append(sc("crash-%d.%d%s" % (k, s, m), P, S, rng.randrange(S, S + 3), rng.choice([0, 1, 1]), q, stage, seed=rng.randrange(1, 10**6),
                      holds=[{"k": k, "s": s, "m": m, "i": idx}], kill={"node": node, "when": "held", "part": part}))
    return res

def allbits(rng, n):
    """Every bit of a response to a client; one client per bit."""
    bits = [[b, 1 << i] for b in range(52) for i in range(8)]
    rng.shuffle(bits)
    res = []
    for i in range(0, len(bits), 26):
        S = len(bits[i:i + 26])
        stage = "all" if i % 3 == 0 else "online"
        res.append(sc("allbits#%d" % i, 2, S, 200, 0, [1] * S, stage, seed=rng.randrange(1, 10**6), real=[[-1, s] for s in range(S)],
                      tamper={"k": 0, "m": "rsp", "i": 0, "each": bits[i:i + 26]}))
    return res[:n]

def tamper_sweep(rng, n):
    """Every byte of a response and of a cipher, at every link."""
    res = []
    for P, S in ((2, 1), (3, 1), (2, 2)):
        for k in range(P):
            for byte in range(52):
                res.append(sc("sweep-rsp%d@%d" % (k, byte), P, S, 3, 1, [2] * S, "all", seed=rng.randrange(1, 10**6),
                              tamper={"k": k, "s": rng.randrange(S), "m": "rsp", "i": rng.randrange(2), "byte": byte, "xor": 1 << rng.randrange(8)}))
            for byte in range(0, 124 * (P - k), 3):
                res.append(sc("sweep-cph%d@%d" % (k, byte), P, S, 3, 1, [2] * S, "all", seed=rng.randrange(1, 10**6),
                              tamper={"k": k, "s": rng.randrange(S), "m": "cph", "i": rng.randrange(2), "byte": byte, "xor": 1 << rng.randrange(8)}))
    rng.shuffle(res)
    return res[:n]

def sampled(rng, n):
    """The build with real noise sampling."""
    res = []
    for i in range(n):
        P, S = rng.choice([2, 2, 3]), rng.choice([1, 2, 2, 3])
        db = rng.randrange(S, S + 4)
        e = rng.choice([2.0, 4.0, 1.0])
        c = rng.choice([1.5, 2.5, 0.7])
        d = math.exp(-c * e / 2)
        x = sc("sample", P, S, db, 0, [rng.choice([0, 1, 2]) for _ in range(S)], rng.choice(["all", "all", "offline"]),
               seed=rng.randrange(1, 10**6), variant="sample")
        x.eps, x.delta, x.noise, x.nmax = e, d, -1, int(math.floor(2 * c + 1e-9))
        x.name += "-e%s-c%s" % (e, c)
        res.append(x)
    return res

def heavy(rng, n):
    """Larger batches (a few hundred messages)."""
    res = []
    for i in range(n):
        P, S = [(2, 1), (2, 2), (3, 2), (2, 3), (3, 1)][i % 5]
        q = [rng.choice([60, 30, 0, 100]) // (P - 1) for _ in range(S)]
        res.append(sc("heavy", P, S, rng.randrange(S + 2, 12), rng.choice([0, 3, 5]), q, rng.choice(["all", "online"]), seed=rng.randrange(1, 10**6)))
    return res

def rows(rng, n):
    """Database sizes around multiples of the server count: which rows get noised by whom."""
    res = []
    for i in range(n):
        S = rng.choice([1, 2, 3, 4, 4, 5, 6])
        db = S + i % (3 * S) if i < 60 else rng.randrange(S, 6 * S)
        res.append(sc("rows", 2, S, db, rng.choice([1, 1, 2]), [rng.choice([0, 1]) for _ in range(S)], rng.choice(["all", "online"]),
                      seed=rng.randrange(1, 10**6), real=[[0, s] for s in range(S)]))
    return res

def bigholds(rng, n):
    """As holds, with batches that overflow the (reduced) program buffers several times, so that whatever is sent
    too early is not just sitting in a buffer."""
    res = []
    topos = [(2, 1, 3, [60]), (2, 2, 3, [50, 14]), (3, 1, 2, [50]), (3, 2, 3, [50, 12]), (2, 3, 4, [48, 0, 13]), (2, 2, 3, [0, 60])]
    for P, S, db, q in topos:
        for stage in ("all", "online", "offline"):
            for k in range(P):
                for s in range(S):
                    for m in KINDS[stage]:
                        if m in ("cnt",) or (k == 0 and m in ("cph", "qry", "rsp") and q[s] == 0):
                            continue
                        h = {"k": k, "s": s, "m": m[:3], "i": int(m[3]) if m[:3] == "rdy" else "last"}
                        res.append(sc("bighold-%d.%d%s" % (k, s, m), P, S, db, rng.choice([0, 0, 1, 4]), q, stage, seed=rng.randrange(1, 10**6), holds=[h], variant="tiny"))
    rng.shuffle(res)
    res.sort(key=lambda x: (x.stage == "offline", 0))
    a = [x for x in res if x.stage != "offline"]
    b = [x for x in res if x.stage == "offline"]
    return (a[:n - n // 6] + b[:n // 6])[:n]
