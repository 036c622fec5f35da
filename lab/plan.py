"""Which machinery decides which property, per tier."""
import functools
import proto, suites
import comp_sharing, comp_shuffle, comp_noise, comp_onion, comp_framing, comp_config, comp_cli, comp_orch, comp_bulk, comp_daemon, comp_large, comp_plot, comp_baseline, comp_timing

ASSUMPTIONS = {
    "*": ["the Linux loopback TCP stack delivers bytes in order", "libsodium's sealed boxes are secure",
          "bounded topologies and batch sizes (see coverage notes)"],
}

def level(prop):
    return "model_checking"

def families(**spec):
    """spec: family -> (quick count, thorough count)."""
    def scenarios(prop, tier, rng, builder, out, deadline):
        scs = []
        for fam, (nq, nt) in spec.items():
            n = nq if tier == "quick" else nt
            if n:
                scs += getattr(suites, fam)(rng, n)
        proto.check(prop, scs, builder, deadline, out)
    return scenarios

def design(quick, thorough=()):
    def model(prop, tier, rng, builder, out, deadline):
        for m in list(quick) + (list(thorough) if tier != "quick" else []):
            proto.mc(out, *m)
    return model

M_S1 = (2, 1, 2, 1, "all", "Q2")
M_S2 = (2, 2, 1, 1, "all", "Q11")
M_P3 = (3, 1, 1, 1, "all", "Q2")
M_ON = (2, 2, 1, 1, "online", "Q11")
M_OFF = (3, 1, 2, 1, "offline", "Q2")
M_F = (2, 1, 1, 1, "all", "Q2", 1)
M_BIG = [(2, 2, 1, 1, "all", "Q12"), (3, 2, 1, 0, "all", "Q11"), (3, 1, 1, 1, "all", "Q3"), (2, 2, 2, 1, "all", "Q02"), (2, 2, 2, 1, "online", "Q12")]
M_FBIG = [(2, 1, 2, 1, "all", "Q3", 1), (2, 1, 1, 1, "all", "Q2", 2), (2, 2, 1, 0, "all", "Q11", 1), (3, 1, 1, 0, "all", "Q2", 1)]

PARTS = {
    "C01": [design([M_S1, M_S2], M_BIG), families(bounds=(12, 200), base=(110, 3000), roles=(30, 1000), segment=(20, 400), randsched=(20, 400), heavy=(6, 60), sampled=(10, 200), buffers=(10, 200))],
    "C02": [design([M_S2, M_P3], M_BIG), families(holds=(150, 1500), holdall=(40, 92), randsched=(40, 1500), sibholds=(40, 800), buffers=(40, 800), orders=(25, 400), segment=(24, 600), scripted=(12, 300), base=(40, 600), heavy=(6, 60))],
    "C03": [design([M_S1], M_BIG[:2]), families(crashes=(15, 200), bounds=(12, 200), base=(120, 2500), roles=(40, 800), sampled=(25, 500), heavy=(6, 60), randsched=(20, 300))],
    "C04": [design([M_S2], M_BIG[:2]), families(roles=(120, 2500), base=(90, 2000), sampled=(10, 200), heavy=(6, 60), buffers=(20, 400), segment=(12, 200))],
    "C05": [design([M_S2], M_BIG[:2]), families(crashes=(15, 300), bounds=(12, 200), roles=(140, 2500), base=(80, 2000), heavy=(6, 60), segment=(12, 200), randsched=(20, 400), holds=(30, 300), bigholds=(20, 200))],
    "C06": [design([M_S2, M_P3], M_BIG), families(crashes=(50, 600), holds=(220, 1500), bigholds=(70, 250), holdall=(40, 92), randsched=(40, 1500), scripted=(12, 300), roles=(40, 800))],
    "C07": [design([M_S2, M_P3, M_OFF], M_BIG), families(crashes=(20, 300), holds=(260, 1500), holdall=(40, 92), randsched=(40, 1500), scripted=(12, 300), sibholds=(20, 400), bigholds=(50, 250))],
    "C09": [design([M_S1], M_BIG[:1]), families(base=(120, 2500), roles=(40, 800), sampled=(25, 500), heavy=(6, 60))],
    "C10": [design([M_F], M_FBIG), families(allbits=(16, 16), crashes=(40, 600), faults=(160, 3000), tamper_sweep=(80, 1200))],
    "C21": [design([M_S2], M_BIG[:2]), families(bounds=(12, 200), roles=(200, 3000), sibholds=(30, 500), base=(40, 800), buffers=(15, 300))],
}

def parts(prop, tier):
    return PARTS[prop]


PARTS["C12"] = [comp_sharing.model([(5, 2, 4), (3, 3, 4), (7, 1, 8)], 2, 4), comp_sharing.c12, families(roles=(40, 600), base=(30, 400))]
PARTS["C13"] = [comp_sharing.model([(3, 2, 4), (3, 3, 2)], 2, 4), comp_sharing.c13, families(base=(30, 400))]
PARTS["C14"] = [comp_shuffle.model, comp_shuffle.c14, families(base=(30, 400), roles=(30, 400))]
PARTS["C15"] = [comp_shuffle.model, comp_shuffle.c15, comp_shuffle.wire]
PARTS["C16"] = [comp_noise.c16, comp_noise.wire, families(sampled=(20, 300), base=(20, 300))]
PARTS["C17"] = [comp_noise.model, comp_noise.c17, families(rows=(40, 500))]
PARTS["C08"] = [comp_onion.model, comp_onion.c08, families(base=(50, 800), roles=(30, 500), tamper_sweep=(30, 600))]
PARTS["C11"] = [comp_framing.model, comp_framing.c11, families(segment=(40, 800), buffers=(30, 500))]
PARTS["C18"] = [comp_config.model, comp_config.c18]
PARTS["C22"] = [comp_cli.c22, families(base=(40, 500), roles=(20, 300), orders=(10, 100))]
PARTS["C19"] = [comp_orch.model, comp_orch.replays]
PARTS["C20"] = [comp_orch.model, comp_orch.replays]
PARTS["C02"].append(comp_bulk.flood)
PARTS["C01"].append(comp_bulk.wide)
PARTS["C23"] = [comp_daemon.model, comp_daemon.replays]
for _p in ("C03", "C04", "C05", "C09", "C17"):
    PARTS[_p].append(comp_large.large)
PARTS["C09"].append(comp_bulk.wide)
for _p in ("C05", "C21"):
    PARTS[_p].append(comp_large.secrets)
PARTS["C24"] = [comp_plot.model, comp_plot.replays, comp_plot.live, comp_plot.shipped]
PARTS["C25"] = [comp_timing.model, comp_timing.times]
PARTS["C26"] = [comp_baseline.model, comp_baseline.replays]
