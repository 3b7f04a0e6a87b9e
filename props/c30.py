from vlib import globe

PROP, SPEC = "C30", "Globe"
MC = [dict(module="GlobeMC", cfg="GlobeMC_inv.cfg", kind="inv"), dict(module="GlobeMC", cfg="GlobeMC_gen.cfg", kind="gen")]
MUST = ["go", "along", "dist", "course", "lin", "lin:ValueError", "circle", "off", "foot", "cuts", "cross", "ecef"]
execute = globe.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p for _, p in gen]
    if len(g) > 3000: g = rng.sample(g, 3000 if q else min(len(g), 40000))
    return [globe.concrete(p, rng) for p in g] + [globe.random_program(rng, not q) for _ in range(3000 if q else 40000)]
