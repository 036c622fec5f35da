"""C24: the real plotting script against Plot.tla, with stand-ins for the drawing libraries."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, tempfile
import build, bulk, comp, tlc

HERE = os.path.dirname(os.path.abspath(__file__))
EXP = lambda: os.path.join(build.REPO, "experiments")
ODD = 2147483647

def model(prop, tier, rng, builder, out, deadline):
    for p, m, a in [("DP-PIR", "Online", "queries"), ("DP-PIR", "Offline", "tableSize"), ("DP-PIR", "Online", "parties"), ("Checklist", "Punc", "queries"),
                    ("SealPIR", "SealPIR", "queries"), ("Checklist", "DPF", "tableSize")]:
        r = tlc.run("MCPlot", tlc.cfg_text({"MProto": '"%s"' % p, "MMode": '"%s"' % m, "MAxis": '"%s"' % a}, invariants=["Inv"], properties=["Ends"], deadlock=False), workers=4)
        if not r.ok:
            raise tlc.ModelError(r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCPlot %s %s over %s: %d states" % (p, m, a, r.distinct))

def scenarios(num, seed):
    r = tlc.run("MCPlotSim", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=1, timeout=600, args=["-simulate", "num=%d" % num, "-depth", "120", "-seed", str(seed)])
    text = re.sub(r"\n\s+", " ", r.out)
    res = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'<<\s*"SCHED",\s*"(.*?[^\\])"\s*>>', text)]
    if not res:
        raise tlc.ModelError("no scenarios: " + r.error())
    return res

def go_time(ms):
    """As Go prints durations."""
    if ms < 1000:
        return "%dms" % ms
    h, m, s = ms // 3600000, ms // 60000 % 60, "%d" % (ms // 1000 % 60)
    if ms % 1000:
        s += (".%03d" % (ms % 1000)).rstrip("0")
    return ("%dh" % h if h else "") + ("%dm" % m if h or m else "") + s + "s"

def dirname(e):
    p = [e["name"], e["table"]] + ([e["parties"], e["par"], e["queries"], e["eps"], e["delta"]] if e["kind"] == "dppir" else [e["queries"]])
    return "-".join(str(x) for x in p)

def filename(e, f):
    if e["kind"] == "dppir":
        return "party-%d-%d.log" % (f["party"], f["server"]) if f["role"] == "party" else "client-%d.log" % f["server"]
    if e["kind"] == "checklist":
        return "client.log" if f["role"] == "client" else "server%d.log" % f["server"]
    return "sealpir.log"

def report(f):
    """A report as the programs write it, with the times of the scenario."""
    t = "Loading: 0 packages loaded\nINFO: Elapsed time: 0.384s, Critical Path: 0.03s\nNoise cutoff: 276.31\nOn port 3000\nInput: 10; Noise: 276; Shuffled: 286\n"
    t += "".join("Offline time: %dms\nListening for queries...\n" % x for x in f["off"]) + "Progress 7/9\n"
    t += "".join("Online time: %dms\nSending responses...\n" % x for x in f["on"])
    t += "Query time: 21ms\n" + "".join("Server time: %dms\n" % x for x in f["seal"]) + "Response handling: 24ms\n23.771023527s\n"
    t += "".join("Server %d time: %s and bytes: %d\n" % (i + 1, go_time(x), 2187768 + i) for i, x in enumerate(f["chk"]))
    return t + "Done!\n"

def description(d):
    j = {"experiment-name": d["name"], "type": d["type"], "x": d["xs"], "tableSize": "x", "queries": "1",
         "labels": {"x": "X", "y": "Y", "graphs": d["graphs"], "title": "T"}, "ranges": {"x": [1, 100], "y": [0, 10]}}
    if d["type"] == "table":
        del j["x"]
        j["table"] = {"rows-attr": d["axis"], "rows": d["xs"], "cols-attr": "mode", "cols": d["cols"]}
        j["labels"] = {"title": "T", "headers": ["Rows", "Times"]}
        return j
    j["axis"] = {"x": d["axis"], "y": [[s["proto"], s["mode"]] for s in d["series"]]}
    j["yscale"] = "log"
    if d["type"] == "ratio-plot":
        j["axis"]["y"] = ["%dx" % s for s in d["speedups"]]
        j["baseline"] = [d["base"]["proto"], d["base"]["mode"]]
    else:
        j["interpolate"] = {"%s-%s" % (s["proto"], s["mode"]): s["fill"] for s in d["series"]}
    if d["type"] == "split-plot":
        lab = [label(d, s) for s in d["series"]]
        j.update(split=[3, 5], top=lab[0], bot=lab[1])
    return j

def label(d, s):
    if s["proto"] == "DP-PIR":
        return s["mode"] if d["graphs"] else "DP-PIR"
    return {"Punc": "Checklist"}.get(s["mode"], s["mode"])

def setup(w):
    """A scratch copy of the script, without descriptions and results."""
    shutil.copytree(os.path.join(EXP(), "plots"), os.path.join(w, "plots"), ignore=shutil.ignore_patterns("descriptions", "figs", "__pycache__"))
    for d in ("plots/descriptions", "plots/figs", "orchestrator/outputs"):
        os.makedirs(os.path.join(w, d))

def run(w, pdf, names):
    """Runs the script; its figures and tables, in order, and whether it ended well."""
    rec = os.path.join(w, "rec")
    open(rec, "w").close()
    env = dict(os.environ, PYTHONWARNINGS="ignore", PYTHONPATH=os.path.join(HERE, "plotstub"), PLOT_REC=rec, PYTHONDONTWRITEBYTECODE="1")
    env.pop("VIRTUAL_ENV", None)
    try:
        p = subprocess.run(["python3-vt", "plot.py", "pdf" if pdf else "ui"] + names, cwd=os.path.join(w, "plots"), env=env, capture_output=True, text=True, timeout=120)
        rc, so, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        rc, so, err = -1, "", "timeout"
    if "ModuleNotFoundError" in err:
        raise RuntimeError(err[-300:])
    got, lines = [], []
    for l in open(rec):
        e = json.loads(l)
        if e["ev"] == "line":
            lines.append({"label": e["label"], "x": e["x"], "y": e["y"]})
        elif e["ev"] == "table":
            got.append({"what": "table", "path": "", "cols": e["headers"][1:], "rows": e["rows"]})
        else:
            p = e.get("path", "")
            base = os.path.basename(p) if os.path.dirname(p) == "figs" else p
            got.append({"what": "figure", "path": base, "lines": lines})
            lines = []
    return rc, so, err, got, lines

def tex_table(text):
    body = text.split("\\hline", 1)
    cols = [c for c in re.findall(r"\\textbf\{\s*(?:\\quad)?\s*(\w+)\s*(?:\\quad)?\s*\}", body[0].split("\\\\")[-2] if body[0].count("\\\\") >= 2 else body[0])]
    rows = []
    for l in body[1].split("\\end{tabular}")[0].split("\\\\") if len(body) > 1 else []:
        c = [x.strip() for x in l.split("&")]
        if len(c) > 1:
            rows.append([num(c[0])] + [num(x) for x in c[1:]])
    return cols, rows

def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None

def unit(y, k):
    if k == 1e5 and y is not None and y > 20000 and abs(y * 1000 - round(y * 1000)) < 1e-3 and y < 2 * 10**6:
        return -round(y * 1000)     # see Plot!Shown
    return ODD if y is None or abs(y * k) > 2 * 10**9 else round(y * k)

def whole(x):
    return ODD if x is None or x != int(x) or abs(x) > 2 * 10**9 else int(x)

def one(sc):
    w = tempfile.mkdtemp(prefix="dppir-plot-")
    try:
        setup(w)
        for d in sc["descs"]:
            with open(os.path.join(w, "plots", "descriptions", d["name"] + ".json"), "w") as f:
                json.dump(description(d), f)
        for r in sc["rs"]:
            o = os.path.join(w, "orchestrator", "outputs", dirname(r["e"]))
            os.makedirs(o, exist_ok=True)
            for f in r["files"]:
                with open(os.path.join(o, filename(r["e"], f)), "w") as h:
                    h.write(f["text"] if "text" in f else report(f))
        byname = {d["name"]: d for d in sc["descs"]}
        asked = [sc["descs"][i - 1]["name"] for i in sc["ask"]]
        rc, so, err, got, _ = run(w, sc["pdf"], [] if sc["all"] else asked)
        rec = dict(sc, ok=int(rc == 0), err=err[-200:], rs=[dict(r, files=[{k: v for k, v in f.items() if k != "text"} for f in r["files"]]) for r in sc["rs"]])
        if sc["t"] == "play":
            m = re.search(r"play store[^\[]*\[([^\]]*)\]", so)
            rec["values"] = [unit(num(x), 1) for x in m.group(1).split(",")] if m else []
            return rec
        # tables in files belong where their names were announced
        names = re.findall(r"^Plotting (\S+)", so, re.M)
        names = names if sc["all"] else asked[:len(names)]
        seq, it = [], iter(got)
        for i, n in enumerate(names):
            d = byname.get(n)
            if d and d["type"] == "table" and sc["pdf"]:
                path = os.path.join(w, "plots", "figs", n + ".tex")
                if os.path.exists(path) and (i + 1 < len(names) or rc == 0):
                    cols, rows = tex_table(open(path).read())
                    seq.append({"what": "table", "path": n + ".tex", "cols": cols, "rows": rows, "name": n})
                continue
            g = next(it, None)
            if g:
                seq.append(dict(g, name=n))
        seq += [dict(g, name="") for g in it]
        for g in seq:
            g["pdf"] = sc["pdf"]
            if g["what"] == "table":
                g["rows"] = [{"x": whole(num(r[0])), "y": [unit(num(y), 1e5) for y in r[1:]]} for r in g["rows"]]
            else:
                k = 1000 if g["name"] in byname and byname[g["name"]]["type"] == "ratio-plot" else 1e5
                g["lines"] = [{"label": l["label"], "x": [whole(x) for x in l["x"]], "y": [unit(y, k) for y in l["y"]]} for l in g["lines"]]
        rec["got"] = seq
        return rec
    finally:
        shutil.rmtree(w, ignore_errors=True)

def replays(prop, tier, rng, builder, out, deadline):
    num = 350 if tier == "quick" else 8000
    scs = scenarios(num, rng.randrange(1, 10**6))
    def make():
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, scs))
    comp.check(prop, "Plot", make, out, "descriptions and results from MCPlotSim")

# ---- reports of the real program
# name, P, S, db, noise, queries, stage
LIVE = [("live", 2, 1, 30, 2, [5], "all"), ("live", 2, 2, 30, 2, [4, 3], "all"), ("livb", 2, 1, 30, 1, [6], "all"), ("livb", 3, 1, 30, 1, [6], "all"),
        ("livc", 2, 1, 30, 1, [3], "online"), ("livc", 2, 1, 30, 1, [9], "online")]
def live(prop, tier, rng, builder, out, deadline):
    prog = builder.program("std")
    base = {"base": {"proto": "SealPIR", "mode": "SealPIR"}, "speedups": [], "roots": [], "cols": [], "series": [], "graphs": 1}
    on, off = ({"proto": "DP-PIR", "mode": m, "fill": []} for m in ("Online", "Offline"))
    descs = [dict(base, name="live", type="table", axis="parallelism", xs=[1, 2], cols=["Offline", "Online"]),
             dict(base, name="livb", type="split-plot", axis="parties", xs=[2, 3], series=[off, on]),
             dict(base, name="livc", type="simple-plot", axis="queries", xs=[3, 9], series=[on], graphs=0)]
    def result(c):
        name, P, S, db, noise, q, stage = c
        r = bulk.run(prog, P, S, db, noise, q, stage, seed=rng.randrange(1, 10**6))
        files = []
        for (k, s), t in sorted(r["text"].items()):
            st = lambda w: [int(x) for x in re.findall(r"^%s time: (\d+)ms$" % w, t, re.M)]
            files.append({"role": "party" if k >= 0 else "client", "party": max(k, 0), "server": s, "on": st("Online"), "off": st("Offline"), "chk": [], "seal": [], "text": t})
        return {"e": {"name": name, "kind": "dppir", "table": db, "queries": sum(q) if S == 1 else 7, "parties": P, "par": S, "eps": "0.1", "delta": "0.000001"},
                "mode": stage, "ran": int(all(x == 0 for x in r["exits"].values())), "files": files}
    def make():
        with cf.ThreadPoolExecutor(3) as ex:
            rs = list(ex.map(result, LIVE))
        return [one({"t": "live", "descs": descs, "rs": rs, "ask": [1, 2, 3], "all": 0, "pdf": p}) for p in (0, 1)]
    comp.check(prop, "Plot", make, out, "reports of the real program")

# ---- what is shipped
OTHERS = {"tableSize": 1, "queries": 2}
DPPIR = {"queries": 4, "tableSize": 1, "parties": 2, "parallelism": 3}

def synthetic(x, i):
    """Made-up reports of a stored experiment."""
    t = [37 + 11 * i, 5041 + 97 * i, 60]
    e = {"kind": {"dppir": "dppir", "checklist": "checklist", "sealpir": "sealpir"}[x["experimentType"]]}
    f = {"on": [t[0]], "off": [t[1]] if x.get("mode") == "all" else [], "chk": [t[0], t[0] + 5], "seal": [t[0]], "party": 0}
    if e["kind"] == "dppir":
        return [("party-0-%d.log" % s, report(f)) for s in range(int(x["parallelism"]))]
    return [(filename(e, dict(f, role="client", server=0)), report(f))]

def stated(text, mode):
    """The times a report states, in ms."""
    if mode in ("Online", "Offline"):
        return [int(x) for x in re.findall(mode + r" time: (\d+)ms", text)]
    if mode == "SealPIR":
        return [int(x) for x in re.findall(r"^Server time: (\d+)ms", text, re.M)]
    r = []
    for h, m, s, u in re.findall(r"Server \d time: (?:(\d+)h)?(?:(\d+)m(?!s))?([\d.]+)(ms|s) and", text):
        r.append(int(h or 0) * 3600000 + int(m or 0) * 60000 + float(s) * (1 if u == "ms" else 1000))
    return [max(r)] if r else []

def shipped_one(args):
    name, of = args
    w = tempfile.mkdtemp(prefix="dppir-plot-")
    try:
        setup(w)
        d = json.load(open(os.path.join(EXP(), "plots", "descriptions", name + ".json")))
        shutil.copy(os.path.join(EXP(), "plots", "descriptions", name + ".json"), os.path.join(w, "plots", "descriptions"))
        outp = os.path.join(w, "orchestrator", "outputs")
        if of == "measurements":
            # the measurements are sorted by figure
            for sub in glob.glob(os.path.join(EXP(), "measurements", "*", "*", "")):
                shutil.copytree(sub, os.path.join(outp, os.path.basename(os.path.dirname(sub))), dirs_exist_ok=True)
        else:
            for i, x in enumerate(json.load(open(os.path.join(EXP(), "orchestrator", "stored", name + ".json")))):
                os.makedirs(os.path.join(outp, x["name_"]), exist_ok=True)
                for f, t in synthetic(x, i):
                    with open(os.path.join(outp, x["name_"], f), "w") as h:
                        h.write(t)
        named = []
        if of != "measurements":
            for x in json.load(open(os.path.join(EXP(), "orchestrator", "stored", name + ".json")), parse_float=str, parse_int=str):
                p = x["name_"].split("-")
                if x["experimentType"] == "dppir":
                    p = (p + [""] * 7)[:7]
                    named.append({"kind": "dppir", "stated": [p[1], p[2], p[3], p[5], p[6]], "is": [x[k] for k in ("tableSize", "parties", "parallelism", "epsilon", "delta")],
                                  "total": int(p[4] or -1), "par": int(x["parallelism"]), "each": int(x["queries"]), "roles": [int(x["clientsNum"]), int(x["serversNum"])], "needs": [int(x["parallelism"]), int(x["parties"]) * int(x["parallelism"])]})
                else:
                    p = (p + [""] * 3)[:3]
                    named.append({"kind": x["experimentType"], "stated": [p[1]], "is": [x["tableSize"]], "total": int(p[2] or -1), "par": 1, "each": int(x["queries"]),
                                  "roles": [int(x["clientsNum"]), int(x["serversNum"])], "needs": [1, 2 if x["experimentType"] == "checklist" else 0]})
        rc, so, err, got, _ = run(w, 0, [name])
        rec = {"named": named, "t": "shipped", "of": of, "which": name, "ok": int(rc == 0 and len(got) == 1), "points": [], "err": err[-200:]}
        if rec["ok"] and d["type"] in ("simple-plot", "split-plot"):
            shown = {l["label"]: dict(zip([str(int(x)) for x in l["x"]], l["y"])) for l in got[0]["lines"]}
            for proto, mode in d["axis"]["y"]:
                lab = label({"graphs": d["labels"]["graphs"]}, {"proto": proto, "mode": mode})
                for x in d["x"]:
                    ms = []
                    for e in os.listdir(outp):
                        p = e.split("-")
                        if p[0] != d["experiment-name"] or (proto == "DP-PIR") != (len(p) > 3):
                            continue
                        if p[(DPPIR if proto == "DP-PIR" else OTHERS)[d["axis"]["x"]]] != str(x):
                            continue
                        for f in os.listdir(os.path.join(outp, e)):
                            if f.startswith("party-0-") if proto == "DP-PIR" else f == ("client.log" if proto == "Checklist" else "sealpir.log"):
                                ms += ["%.5f" % (v / 1000.0) for v in stated(open(os.path.join(outp, e, f)).read(), mode)]
                    y = shown.get(lab, {}).get(str(x))
                    rec["points"].append({"label": lab, "x": str(x), "measured": ms, "shown": "" if y is None else "%.5f" % y})
        if rec["ok"] and d["type"] == "table":
            for r in got[0]["rows"]:
                for c, y in zip(got[0]["cols"], r[1:]):
                    ms = []
                    for e in os.listdir(outp):
                        p = e.split("-")
                        if p[0] == d["experiment-name"] and p[DPPIR[d["table"]["rows-attr"]]] == str(r[0]):
                            for f in os.listdir(os.path.join(outp, e)):
                                if f.startswith("party-0-"):
                                    ms += ["%.5f" % (v / 1000.0) for v in stated(open(os.path.join(outp, e, f)).read(), c)]
                    rec["points"].append({"label": c, "x": str(r[0]), "measured": ms or ["none"], "shown": "" if y is None else "%.5f" % y})
        return rec
    finally:
        shutil.rmtree(w, ignore_errors=True)

def shipped(prop, tier, rng, builder, out, deadline):
    names = sorted(f[:-5] for f in os.listdir(os.path.join(EXP(), "plots", "descriptions")) if f.endswith(".json"))
    todo = [(n, "measurements") for n in names] + [(n, "experiments") for n in names if os.path.exists(os.path.join(EXP(), "orchestrator", "stored", n + ".json"))]
    def make():
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(shipped_one, todo))
    comp.check(prop, "Plot", make, out, "shipped descriptions")
