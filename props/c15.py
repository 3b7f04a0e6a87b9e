from vlib import rehearse

PROP, SPEC = "C15", "Rehearse"
MC = [dict(module="RehearseMC", cfg="RehearseMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="RehearseMC", cfg="RehearseMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="RehearseMC", cfg="RehearseMC_gen.cfg", kind="gen")]
MUST = ['rehearse', 'rehearse:SimulationError', 'rehearse:UpstageError', 'network', 'network:SimulationError', 'continue', 'continue:SimulationError', 'advance', 'start']
execute = rehearse.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p for _, p in gen]
    if q and len(g) > 2000: g = rng.sample(g, 2000)
    return g + [rehearse.random_program(rng, not q or rng.random() < .3, PROP if rng.random() < .7 else "all") for _ in range(2500 if q else 40000)]
