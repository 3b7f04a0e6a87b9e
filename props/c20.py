from vlib import contcont, reserve, stores

PROP, SPEC = "C20", "Stores"
MC = [dict(module="StoresMC", cfg="StoresMC_inv_store.cfg", kind="inv"),
      dict(module="StoresMC", cfg="StoresMC_inv_container.cfg", kind="inv"),
      dict(module="StoresMC", cfg="StoresMC_gen_store.cfg", kind="gen", tag="Stores"),
      dict(module="StoresMC", cfg="StoresMC_gen_filter.cfg", kind="gen", tag="Stores"),
      dict(module="StoresMC", cfg="StoresMC_gen_container.cfg", kind="gen", tag="Stores"),
      dict(module="ReserveMC", cfg="ReserveMC_gen.cfg", kind="gen", tag="Reserve"),
      dict(module="ContContMC", cfg="ContContMC_gen.cfg", kind="gen", tag="ContCont")]
MUST = ["put", "get", "cancelg", "cancelp", "step", "settle", "advance", "batch", "take"]
DRV = {"Stores": stores, "Reserve": reserve, "ContCont": contcont}


def execute(program):
    return dict(DRV[program["drv"]].execute(program["p"]), spec=program["drv"])


def programs(rng, tier, gen):
    """All the monitored resources; the specifications also judge which requests are served and when,
    so that recording is shown not to change it."""
    q = tier == "quick"
    k = 1 if q else 12
    by = lambda s: [(t, p) for t, p in gen if t == s]
    out = [("Stores", p) for p in stores.from_generated(rng, by("Stores"), 1500 * k, 1.0)]
    out += [("Stores", stores.random_program(rng, ["store", "filter", "sorted", "container"], 1.0, long=not q)) for _ in range(2200 * k)]
    out += [("Reserve", p) for p in reserve.from_generated(rng, by("Reserve"), 600 * k, 1.0)]
    out += [("Reserve", reserve.random_program(rng, 1.0, long=not q)) for _ in range(900 * k)]
    out += [("ContCont", p) for p in contcont.from_generated(rng, by("ContCont"), 500 * k, 1.0)]
    out += [("ContCont", contcont.random_program(rng, 1.0, long=not q)) for _ in range(900 * k)]
    return [dict(drv=d, p=p) for d, p in out]
