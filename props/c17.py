from vlib import contcont

PROP, SPEC = "C17", "ContCont"
MC = [dict(module="ContContMC", cfg="ContContMC_inv.cfg", kind="inv"),
      dict(module="ContContMC", cfg="ContContMC_gen.cfg", kind="gen")]
MUST = ["batch", "batch:ContainerEmptyError", "batch:ContainerFullError"]
execute = contcont.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    out = contcont.from_generated(rng, gen, 2000 if q else 20000, 0.4)
    out += [contcont.random_program(rng, 0.4, long=not q) for _ in range(3000 if q else 30000)]
    return out
