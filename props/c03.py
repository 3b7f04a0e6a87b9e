from vlib import corecheck, windowed

PROP, SPEC = "C03", "Core"
MC = corecheck.mc("rout") + [dict(module="WindowedMC", cfg="WindowedMC_inv.cfg", kind="inv"),
                             dict(module="WindowedMC", cfg="WindowedMC_gen.cfg", kind="gen")]
MUST = ["rstart", "rend", "rret", "rcancel", "rcend", "intr", "snap", "result", "begin"]


def execute(p):
    return windowed.execute(p) if "hist" in p else corecheck.execute(p)


def programs(rng, tier, gen):
    q = tier == "quick"
    win = [p for _, p in gen if "hist" in p]
    out = rng.sample(win, 2500) if q else win
    out += [windowed.random_program(rng, not q) for _ in range(1500 if q else 20000)]
    return out + corecheck.programs(["C03"], rng, tier, [x for x in gen if "hist" not in x[1]], 1108, 1100)
