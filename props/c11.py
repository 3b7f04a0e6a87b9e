from vlib import keyed

PROP, SPEC = "C11", "Keyed"
MC = [dict(module="KeyedMC", cfg="KeyedMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="KeyedMC", cfg="KeyedMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="KeyedMC", cfg="KeyedMC_gen.cfg", kind="gen")]
MUST = ["set", "set:TypeError", "setdefault", "add", "add:KeyError", "get:KeyError", "get:AttributeError", "raw", "eq", "eqp", "has", "replace:SimulationError", "caller"]
execute = keyed.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [keyed.concrete(p) for _, p in gen]
    if q and len(g) > 2000: g = rng.sample(g, 2000)
    return g + [keyed.random_program(rng, not q) for _ in range(2200 if q else 40000)]
