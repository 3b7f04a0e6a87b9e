from vlib import places

PROP, SPEC = "C31", "Places"
MC = [dict(module="PlacesMC", cfg="PlacesMC_inv.cfg", kind="inv"), dict(module="PlacesMC", cfg="PlacesMC_gen.cfg", kind="gen")]
MUST = ["new", "copy", "torad", "todeg", "make", "read", "index", "index:ValueError", "dist", "dist:ValueError", "sld", "dwa", "eq", "eq:ValueError", "hash", "latlon", "dataeq", "way", "set:FrozenInstanceError"]
execute = places.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    return [p for _, p in gen] + [places.random_program(rng, not q) for _ in range(4000 if q else 60000)]
