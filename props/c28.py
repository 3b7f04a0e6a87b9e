from vlib import units

PROP, SPEC = "C28", "Units"
MC = [dict(module="UnitsMC", cfg="UnitsMC_gen.cfg", kind="gen")]
MUST = ["wait", "wait:ValueError", "clock", "conv", "conv:ValueError"]
execute = units.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    return [p for _, p in gen] + [units.random_program(rng, not q) for _ in range(3000 if q else 60000)]
