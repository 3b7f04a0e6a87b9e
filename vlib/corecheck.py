"""Programs for the properties decided with Core.tla."""
from vlib import coredrv, coregen

execute = coredrv.execute


def mc(*names):
    out = []
    for n in names:
        out.append(dict(module="CoreMC", cfg=f"CoreMC_{n}_inv.cfg", kind="inv"))
        out.append(dict(module="CoreMC", cfg=f"CoreMC_{n}_gen.cfg", kind="gen"))
        out.append(dict(module="CoreMC", cfg=f"CoreMC_{n}_deep.cfg", kind="inv", tiers=("thorough",)))
    return out


def programs(profiles, rng, tier, gen, ngen=1400, nrand=1400):
    q = tier == "quick"
    gen = [p for _, p in gen]
    if q and len(gen) > ngen: gen = rng.sample(gen, ngen)
    n = nrand if q else nrand * 12
    out = list(gen)
    for i in range(n):
        out.append(coregen.random_program(rng, profiles[i % len(profiles)]))
    return out
