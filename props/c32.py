from vlib import networks

PROP, SPEC = "C32", "Networks"
MC = [dict(module="NetworksMC", cfg="NetworksMC_inv.cfg", kind="inv"), dict(module="NetworksMC", cfg="NetworksMC_gen.cfg", kind="gen")]
MUST = ["add", "add:SimulationError", "suggest", "delete", "delete:SimulationError", "start", "start:KeyError", "setq", "setq:SimulationError", "clearq", "interrupt", "interrupt:SimulationError", "interrupt:UpstageError", "tick"]
execute = networks.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [networks.concrete(p) for _, p in gen]
    if len(g) > 3000: g = rng.sample(g, 3000 if q else min(len(g), 40000))
    return g + [networks.random_program(rng, not q) for _ in range(3000 if q else 40000)]
