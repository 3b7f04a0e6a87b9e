from vlib import motion

PROP, SPEC = "C23", "Motion"
MC = [dict(module="MotionMC", cfg="MotionMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="MotionMC", cfg="MotionMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="MotionMC", cfg="MotionMC_gen.cfg", kind="gen")]
MUST = ["start", "stop", "detect", "sensor", "advance"]
execute = motion.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p for _, p in gen]
    if q and len(g) > 4000: g = rng.sample(g, 4000)
    for p in g:
        p["rot"] = rng.randrange(motion.ROTS)
        p["ops"].append(dict(op="advance", v=30000))
    return g + [motion.random_program(rng, not q or rng.random() < .3) for _ in range(6000 if q else 80000)]
