"""Programs for the properties decided with ActiveStates.tla."""
from vlib import activestates

execute = activestates.execute


def mc(*names):
    out = []
    for n in names:
        out.append(dict(module="ActiveStatesMC", cfg=f"ActiveStatesMC_{n}_inv.cfg", kind="inv", tiers=("quick",)))
        out.append(dict(module="ActiveStatesMC", cfg=f"ActiveStatesMC_{n}_deep.cfg", kind="inv", tiers=("thorough",)))
        out.append(dict(module="ActiveStatesMC", cfg=f"ActiveStatesMC_{n}_gen.cfg", kind="gen"))
    return out


def concrete(g):
    """A program printed by TLC for the driver; everything is read once more at the end."""
    lay = [dict(n=f"s{i}", k=k, rec=True, dup=False, fn=k in ("lin", "plain"), cls=False, still=False) for i, k in enumerate(g["kinds"])]
    v0 = [[0, 0, 0] if k == "cart" else [16] for k in g["kinds"]]
    return dict(classes=[lay], actors=[dict(cls=0, v0=v0)],
                ops=g["ops"] + [dict(op="tick", d=1)] + [dict(op="read", s=i + 1) for i in range(len(lay))])


def programs(prof, rng, tier, gen, ngen=2500, nrand=2200):
    q = tier == "quick"
    gen = [concrete(p) for _, p in gen]
    if len(gen) > ngen * (1 if q else 12): gen = rng.sample(gen, ngen * (1 if q else 12))
    return gen + [activestates.random_program(rng, prof, not q) for _ in range(nrand if q else nrand * 12)]
