"""C03, C04, C05, C09, C17: batches with more than 65536 messages at one real party. Every message passes
the controller as usual, but the trace is too long for DPPIRTrace: what the properties say about whole
batches (amounts, distinctness, correspondence) is tallied here and judged by Large.tla."""
import concurrent.futures as cf
import multiprocessing as mp
import struct
import comp, lab, suites

PRIME = 2**31 - 1
# P, S, db, noise per row, queries, stage
QUICK = [(2, 1, 66000, 1, [3], "all"), (2, 2, 66001, 1, [3, 2], "all"), (2, 3, 70000, 1, [2, 0, 3], "online"), (2, 1, 33000, 2, [3], "online"),
         (2, 1, 300, 1, [66000], "all"), (2, 2, 30, 1, [66000, 5], "online")]
DEEP = [(3, 1, 66000, 1, [3], "all"), (3, 2, 40000, 2, [3, 2], "all"), (2, 2, 200003, 1, [70, 2], "online"), (2, 1, 10, 7000, [70], "all"),
        (2, 4, 1000, 150, [20000, 0, 1, 60000], "all"),(2, 2, 300, 300, [66000, 5], "online")]

# thousands of secrets at a middle or the last party (and its siblings): P, S, db, noise, queries, stage, party
SECRETS = [(2, 2, 50, 0, [7000, 6000], "all", 1), (2, 3, 40000, 0, [70000, 0, 5], "all", 1), (3, 2, 5, 1, [5000, 6500], "all", 1), (2, 2, 20, 0, [9000, 3], "online", 1)]
MORE = [(2, 4, 500, 0, [40000, 40000, 5, 30000], "all", 1), (3, 3, 5, 1000, [50000, 0, 20000], "all", 1), (4, 2, 5, 1, [70000, 5000], "all", 2)]

def last(c, seed, program):
    """The last party: every query is answered with its row under the mask stored for it, whichever server it enters."""
    P, S, db, noise, q, stage, K = c
    x = suites.sc("large", P, S, db, noise, q, stage, seed=seed, real=[[K, s] for s in range(S)])
    t = lab.run_scenario(x, program)
    sent = {}
    for e in t["ev"]:
        if e["t"] == "S":
            sent.setdefault((e["k"], e["m"]), {}).setdefault(e["s"], []).append(t["msgs"][e["i"] - 1])
    get = lambda m: sent.get((K, m), {})
    lay = {m["lay"][0]["tag"]: m["lay"][0] for s in get("cph") for m in get("cph")[s]}
    due = right = 0
    for s in get("qry"):
        ans = get("rsp").get(s, [])
        for j, m in enumerate(get("qry")[s]):
            due += 1
            if stage == "online":
                key, mask = m["tally"], [0] * 26
            else:
                l = lay[m["tag"]]
                key, mask = (m["tally"] * l["y"] + l["x"]) % PRIME, l["pre"]
            row = lab.words(struct.pack("<I", (2 * key) % 2**32) + bytes([key % 128]) * 48)
            right += j < len(ans) and ans[j]["w"] == [a ^ b for a, b in zip(row, mask)]
    return {"t": "last", "P": P, "S": S, "db": db, "q": q, "stage": stage, "seed": seed, "hang": t["aux"]["hang"],
            "fail": sum(rc != 0 for rc in t["aux"]["rc"].values()), "exits": len(t["aux"]["rc"]),
            "due": due, "right": right, "answers": sum(len(v) for v in get("rsp").values())}

def tally(c, seed, program):
    P, S, db, noise, q, stage, K = (tuple(c) + (0,))[:7]
    if K == P - 1:
        return last(c, seed, program)
    x = suites.sc("large", P, S, db, noise, q, stage, seed=seed, real=[[K, s] for s in range(S)])
    t = lab.run_scenario(x, program)
    sent = {}
    for e in t["ev"]:
        if e["t"] == "S":
            sent.setdefault((e["k"], e["m"]), {}).setdefault(e["s"], []).append(t["msgs"][e["i"] - 1])
    get = lambda k, m: sent.get((K + k, m), {})
    flat = lambda d: [y for s in sorted(d) for y in d[s]]
    ins, outs = flat(get(0, "cph")), flat(get(1, "cph"))
    r = {"t": "large", "P": P - K, "S": S, "db": db, "noise": noise, "q": q, "stage": stage, "seed": seed, "hang": t["aux"]["hang"],
         "fail": sum(rc != 0 for rc in t["aux"]["rc"].values()), "exits": len(t["aux"]["rc"]),
         "announced": [get(1, "cnt").get(s, [{"n": -1}])[0]["n"] for s in range(S)]}
    if stage != "online":
        inner = {m["inner"] for m in ins}
        fresh = [m for m in outs if m["id"] not in inner]
        r.update(cin=len(ins), cout=len(outs), cfresh=len(fresh), ckept=len(inner & {m["id"] for m in outs}), opens=sum(m["ok"] for m in fresh),
                 ids=len({m["id"] for m in fresh}),
                 tags=[len({m["lay"][i]["tag"] for m in outs if m["ok"]}) for i in range(P - 1 - K)],
                 pres=len({tuple(l["pre"]) for m in fresh for l in m["lay"]}), shrs=len({(l["x"], l["y"]) for m in fresh for l in m["lay"]}))
        by0 = {m["lay"][0]["tag"]: m["lay"] for m in ins}
        by1 = {m["lay"][0]["tag"]: m["lay"] for m in outs if m["ok"]}
    qi, qo = get(0, "qry"), get(1, "qry")
    rows, unknown, want = {}, 0, {}
    if stage == "online":
        for m in flat(qi):
            want[m["tally"]] = want.get(m["tally"], 0) + 1
        for m in flat(qo):
            v = m["tally"]
            if want.get(v, 0) > 0:
                want[v] -= 1
            elif 0 <= v < db:
                rows[v] = rows.get(v, 0) + 1
            else:
                unknown += 1
    else:
        for m in flat(qi):
            l = by0[m["tag"]][0]
            k = (l["next"], (m["tally"] * l["y"] + l["x"]) % PRIME)
            want[k] = want.get(k, 0) + 1
        for m in flat(qo):
            k = (m["tag"], m["tally"])
            if want.get(k, 0) > 0:
                want[k] -= 1
                continue
            v = m["tally"]
            if m["tag"] not in by1:
                unknown += 1
                continue
            for l in by1[m["tag"]]:
                v = (v * l["y"] + l["x"]) % PRIME
            if v < db:
                rows[v] = rows.get(v, 0) + 1
            else:
                unknown += 1
    hist = {}
    for v in rows.values():
        hist[v] = hist.get(v, 0) + 1
    if len(rows) < db:
        hist[0] = db - len(rows)
    r.update(qin=len(flat(qi)), qout=len(flat(qo)), missing=sum(want.values()), unknown=unknown, hist=sorted(hist.items())[:20])
    # responses: the answer to the forwarded query, unmasked
    right = due = 0
    ri, ro = get(1, "rsp"), get(0, "rsp")
    if stage != "online":
        at = {m["tag"]: (s, j) for s in qo for j, m in enumerate(qo[s])}
        for s in qi:
            for j, m in enumerate(qi[s]):
                due += 1
                l = by0[m["tag"]][0]
                a = at.get(l["next"])
                if a and j < len(ro.get(s, [])) and a[1] < len(ri.get(a[0], [])):
                    right += ro[s][j]["w"] == [x ^ y for x, y in zip(ri[a[0]][a[1]]["w"], l["pre"])]
    else:
        pos = {}
        for s in qo:
            for j, m in enumerate(qo[s]):
                pos.setdefault(m["tally"], []).append((s, j))
        for s in qi:
            for j, m in enumerate(qi[s]):
                due += 1
                right += j < len(ro.get(s, [])) and any(ri[a][b]["w"] == ro[s][j]["w"] for a, b in pos.get(m["tally"], []) if b < len(ri.get(a, [])))
    r.update(due=due, right=right, answers=len(flat(ro)))
    return r

def secrets(prop, tier, rng, builder, out, deadline):
    large(prop, tier, rng, builder, out, deadline, SECRETS + (MORE if tier != "quick" else []), "thousands of secrets at one party")

def large(prop, tier, rng, builder, out, deadline, cs=None, what="batches of more than 65536 messages"):
    cs = cs or QUICK + (DEEP if tier != "quick" else [])
    prog = builder.program("std")
    def make():
        with cf.ProcessPoolExecutor(6, mp_context=mp.get_context("fork")) as ex:
            return list(ex.map(tally, cs, [rng.randrange(1, 10**6) for _ in cs], [prog] * len(cs)))
    comp.check(prop, "Large", make, out, what)
