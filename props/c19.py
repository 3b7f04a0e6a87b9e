from vlib import stores

PROP, SPEC = "C19", "Stores"
MC = [dict(module="StoresMC", cfg="StoresMC_inv_sorted.cfg", kind="inv"),
      dict(module="StoresMC", cfg="StoresMC_gen_sorted.cfg", kind="gen")]
MUST = ["put", "get", "cancelg", "step", "settle", "advance"]
execute = stores.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    out = stores.from_generated(rng, gen, 1500 if q else 20000, 0.4)
    out += [stores.random_program(rng, ["sorted"], 0.4, long=not q) for _ in range(1500 if q else 15000)]
    return out
