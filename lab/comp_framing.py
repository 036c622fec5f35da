"""C11."""
import json, re
import comp, tlc

def model(prop, tier, rng, builder, out, deadline):
    quick = [(2, 3, 2, 2, 6), (3, 2, 2, 3, 7), (3, 3, 3, 1, 7)]
    for u1, u2, n1, n2, room in quick if tier == "quick" else quick + [(2, 3, 4, 3, 6), (3, 4, 3, 3, 9), (4, 3, 3, 3, 8)]:
        r = tlc.run("MCFraming", tlc.cfg_text(dict(U1=u1, U2=u2, N1=n1, N2=n2, Room=room), invariants=["Exact", "NoOverRead", "Once"], properties=["Delivered"]),
                    workers=4, timeout=1500)
        if not r.ok:
            raise tlc.ModelError(r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCFraming sizes %d/%d, %d+%d messages, buffer %d: %d states" % (u1, u2, n1, n2, room, r.distinct))

def sim(unit, num, steps, seed):
    r = tlc.run("MCFramingSim", "CONSTANTS Unit = %d Steps = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (unit, steps), workers=1, timeout=300,
                args=["-simulate", "num=%d" % num, "-depth", str(steps + 2), "-seed", str(seed)])
    text = re.sub(r"\n\s+", " ", r.out)
    res = [json.loads(m.group(1)) for m in re.finditer(r'<<\s*"SCHED",\s*"(.*?)"\s*>>', text)]
    if not res:
        raise tlc.ModelError("no schedules: " + r.error())
    return res

KINDS = {"sread": ["cnt", "cph", "qry"], "cread": ["rdy", "rsp"], "swrite": ["rdy", "rsp"], "cwrite": ["cnt", "cph", "qry"],
         "read": ["cnt", "cph", "sec", "qry", "rsp"], "write": ["cnt", "cph", "sec", "rdy", "qry", "rsp"]}

def text(mode, scheds, rng, sizes=(100, 124, 372), big=0):
    t = ""
    for h in scheds:
        kinds = [k for k in KINDS[mode] if rng.random() < 0.8] or KINDS[mode][-1:]
        t += "run %d\n" % rng.choice(sizes)
        for k in kinds:
            n = 1 if k in ("cnt", "rdy") else big or rng.choice([1, 2, 3, 7, 10, 11, 30, 43, 44, 87, 130])
            t += "phase %s %d\n" % (k, n)
        for s, c, n in ([(0, rng.choice([1, 2, 3]), 1), (1, rng.choice([1, 2, 3]), 1)] if not big and rng.random() < 0.6 else []) + list(h):
            t += "step %d %d %d\n" % (s, c, n)
        t += "end\n"
    return t

def c11(prop, tier, rng, builder, out, deadline):
    num = 6 if tier == "quick" else 120
    scheds = {u: sim(u, num, 40, rng.randrange(1, 10**6)) for u in (12, 52, 100)}
    allsch = [h for u in scheds for h in scheds[u]]
    def make():
        recs = []
        for h, modes in (("h_framing", ("sread", "cread", "swrite", "cwrite")), ("h_framing_par", ("read", "write"))):
            for m in modes:
                for variant in ("tiny", "small"):
                    for wr in (("full",) if "read" in m else ("rand:%d" % rng.randrange(1, 9999), "one")):
                        if wr == "one" and variant == "small":
                            continue
                        sel = rng.sample(allsch, len(allsch) if variant == "tiny" else max(3, len(allsch) // 4))
                        recs += comp.harness(builder, h, [m, 60], variant, out, prop, "the socket code fails or stalls", env={"LAB_WRITE": wr},
                                             timeout=70, stdin=text(m, sel, rng))
                        if out.viol:
                            return recs
        return recs
    comp.check(prop, "Framing", make, out, "TLC schedules, small buffers")
    if out.viol:
        return
    def makebig():
        recs = []
        for h, modes in (("h_framing", ("sread", "cread", "swrite", "cwrite")), ("h_framing_par", ("read", "write"))):
            for m in modes:
                steps = [(rng.randrange(2), rng.choice([1, 13, 4000, 70000, 139999, 140000, 140001, 200000]), rng.choice([1, 700, 2692, 2693, 11666, 11667, 20000, 10**6]))
                         for _ in range(30)]
                if "write" in m:
                    steps = [(s, c, min(n, 12000)) for s, c, n in steps]
                t = text(m, [steps], rng, big=25000 if tier == "quick" else 90000)
                if "read" in m:
                    t = t.replace("step", "step 0 300000 1000000\nstep", 1)
                recs += comp.harness(builder, h, [m, 90], "std", out, prop, "the socket code fails or stalls", timeout=100, stdin=t)
                if out.viol:
                    return recs
        return recs
    comp.check(prop, "Framing", makebig, out, "buffers as shipped, tens of thousands of messages")
    if out.viol:
        return
    def makeslow():
        recs = []
        for h, modes in (("h_framing", ("swrite", "cwrite")), ("h_framing_par", ("write",))):
            for m in modes:
                for variant, big in (("std", 15000), ("tiny", 900)):
                    steps = [(rng.randrange(2), rng.choice([1, 3, 6, 7]), rng.choice([1, 400, 3000, 14000])) for _ in range(30)]
                    recs += comp.harness(builder, h, [m, 90], variant, out, prop, "the socket code fails or stalls with a slow reader", timeout=100,
                                         env={"FRAMING_SLOW": "1"}, stdin=text(m, [steps], rng, big=big if tier == "quick" else 4 * big))
                    if out.viol:
                        return recs
        return recs
    comp.check(prop, "Framing", makeslow, out, "slow reader, full sockets")
