from vlib import rehearse

PROP, SPEC = "C16", "Rehearse"
MC = [dict(module="RehearseMC", cfg="RehearseMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="RehearseMC", cfg="RehearseMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="RehearseMC", cfg="RehearseMC_gen.cfg", kind="gen")]
MUST = ['clone', 'clone:SimulationError', 'do', 'do:SimulationError', 'sput', 'sget', 'cput', 'muput', 'mwput', 'csput', 'sety', 'setz', 'qpop', 'tick', 'rehearse', 'advance', 'fsput', 'fsget', 'ssput', 'ssget', 'mim', 'unmim', 'setw', 'src', 'gapp']
execute = rehearse.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p for _, p in gen]
    if q and len(g) > 2000: g = rng.sample(g, 2000)
    return g + [rehearse.random_program(rng, not q or rng.random() < .3, PROP if rng.random() < .7 else "all") for _ in range(2500 if q else 40000)]
