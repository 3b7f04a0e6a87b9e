from vlib import decl

PROP, SPEC = "C29", "Decl"
MC = [dict(module="DeclMC", cfg="DeclMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="DeclMC", cfg="DeclMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="DeclMC", cfg="DeclMC_gen.cfg", kind="gen")]
MUST = ["class", "class:ValueError", "class:SimulationError", "sig", "make", "make:TypeError", "make:SimulationError", "make:UpstageError",
        "set", "set:TypeError", "set:SimulationError", "set:UpstageError", "read", "read:SimulationError", "grow", "growpart"]
execute = decl.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p for _, p in gen]
    if q and len(g) > 2500: g = rng.sample(g, 2500)
    return g + [decl.random_program(rng, not q) for _ in range(3500 if q else 60000)]
