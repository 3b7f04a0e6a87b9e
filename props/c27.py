from vlib import tables

PROP, SPEC = "C27", "Tables"
MC = [dict(module="TablesMC", cfg="TablesMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="TablesMC", cfg="TablesMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="TablesMC", cfg="TablesMC_gen.cfg", kind="gen")]
MUST = ["make", "do", "table", "loc", "put", "change", "data"]
execute = tables.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p["ops"] for _, p in gen]
    if q: g = rng.sample(g, min(len(g), 3000))
    return [tables.gen_program(rng, o) for o in g] + [tables.random_program(rng, not q or rng.random() < .3) for _ in range(5000 if q else 80000)]
