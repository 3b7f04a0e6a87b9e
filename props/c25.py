from vlib import envctx

PROP, SPEC = "C25", "EnvCtx"
MC = [dict(module="EnvCtxMC", cfg="EnvCtxMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="EnvCtxMC", cfg="EnvCtxMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="EnvCtxMC", cfg="EnvCtxMC_gen.cfg", kind="gen")]
MUST = ["enter", "exit", "addvar", "addvar:UpstageError", "addvar:AttributeError", "addvar:ValueError", "getvar", "getvar:UpstageError", "make", "record", "timer", "run", "run:UpstageError", "draw"]
execute = envctx.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [envctx.concrete(p) for _, p in gen]
    if len(g) > (2500 if q else 30000): g = rng.sample(g, 2500 if q else 30000)
    return g + [envctx.random_program(rng, not q) for _ in range(2500 if q else 30000)]
