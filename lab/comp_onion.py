"""C08."""
import comp, tlc

def model(prop, tier, rng, builder, out, deadline):
    for p, s in [(3, 2), (4, 2)] if tier == "quick" else [(3, 3), (5, 2), (6, 2)]:
        r = tlc.run("MCOnion", tlc.cfg_text(dict(MP=p, MSecrets=s), invariants=["Exact", "Refused", "Uniform"], deadlock=False), workers=4, timeout=900)
        if not r.ok:
            raise tlc.ModelError(r.error())
        out.states += r.distinct
        out.transitions += r.generated
        out.notes.append("MCOnion %d parties: %d states" % (p, r.distinct))

def c08(prop, tier, rng, builder, out, deadline):
    n = 60 if tier == "quick" else 1500
    seed = comp.Seeds(rng)
    def run(args, variant):
        return comp.harness(builder, "h_onion", args, variant, out, prop, "the onion code fails", timeout=1500)
    comp.check(prop, "Onion", lambda: run(["open", seed(), n], "std") + run(["open", seed(), 10], "small"), out, "layer by layer")
    if not out.viol:
        comp.check(prop, "Onion", lambda: run(["alter", seed(), 3 if tier == "quick" else 60], "std"), out, "every byte altered")
    if not out.viol:
        comp.check(prop, "Onion", lambda: run(["fresh", seed(), 8 if tier == "quick" else 100], "std"), out, "repeated encryptions")
