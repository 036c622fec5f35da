"""Checks recorded traces against spec/DPPIRTrace.tla with TLC."""
import concurrent.futures as cf
import json, os, re, tempfile
import tlc

CFG = "INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n"
VIOL = re.compile(r'^<<"VIOL", "([^"]*)", "(\w+)", (\d+), "([^"]*)">>')
DONE = re.compile(r'^<<"DONE", "([^"]*)", (\d+)>>')

class Verdict:
    def __init__(self):
        self.viol = []      # (property, position, explanation)
        self.done = False

def parse_prints(out, verdicts):
    # TLC breaks long values over lines
    text = re.sub(r'\n\s+', ' ', out)
    for line in text.splitlines():
        line = line.replace('<< "', '<<"').replace(' >>', '>>')
        m = VIOL.match(line)
        if m and m.group(1) in verdicts:
            verdicts[m.group(1)].viol.append((m.group(2), int(m.group(3)), m.group(4)))
        m = DONE.match(line)
        if m and m.group(1) in verdicts:
            verdicts[m.group(1)].done = True

def shard(traces, module="DPPIRTrace", cfg=CFG, timeout=600):
    verdicts = {t["name"]: Verdict() for t in traces}
    fd, path = tempfile.mkstemp(prefix="dppir-tr-", suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for t in traces:
            f.write(json.dumps({k: v for k, v in t.items() if k != "aux"}) + "\n")
    try:
        r = tlc.run(module, cfg, env={"TRACES": path}, workers=1, timeout=timeout, heap="2g")
    finally:
        os.unlink(path)
    parse_prints(r.out, verdicts)
    return verdicts, r

def validate(traces, module="DPPIRTrace", cfg=CFG, jobs=7, timeout=600):
    """Returns ({name: Verdict}, states). Raises ModelError if TLC cannot evaluate a trace
    about which it had not already reported something."""
    traces = list(traces)
    if not traces:
        return {}, 0
    names = [t["name"] for t in traces]
    assert len(set(names)) == len(names), "duplicate trace names"
    # balance by length
    order = sorted(traces, key=lambda t: -len(t["ev"]))
    n = min(jobs, max(1, len(order) // 4))
    shards = [order[i::n] for i in range(n)]
    res, states = {}, 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda s: shard(s, module, cfg, timeout), shards))
        redo = []
        for sh, (v, r) in zip(shards, outs):
            states += r.distinct
            res.update(v)
            if not r.ok or any(not x.done for x in v.values()):
                redo += [t for t in sh if not v[t["name"]].done]
        for t, (v, r) in zip(redo[:16], ex.map(lambda t: shard([t], module, cfg, timeout), redo[:16])):
            x = v[t["name"]]
            res[t["name"]] = x
            if not x.done and not x.viol:
                raise tlc.ModelError("trace %s: %s" % (t["name"], r.error()))
    return res, states
