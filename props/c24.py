from vlib import stepped

PROP, SPEC = "C24", "Stepped"
MC = [dict(module="SteppedMC", cfg="SteppedMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="SteppedMC", cfg="SteppedMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="SteppedMC", cfg="SteppedMC_gen.cfg", kind="gen")]
MUST = ["start", "stop", "detect", "sensor", "advance", "register", "run", "particular", "place", "radius", "drain"]
execute = stepped.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p for _, p in gen]
    if q and len(g) > 3000: g = rng.sample(g, 3000)
    for p in g:
        p["rot"] = rng.choice([0, 1, 4])
        p["ops"].append(dict(op="advance", v=12000))
    return g + [stepped.random_program(rng, not q or rng.random() < .3) for _ in range(5000 if q else 80000)]
