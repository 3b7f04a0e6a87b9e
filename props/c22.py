from vlib import comms

PROP, SPEC = "C22", "Comms"
MC = [dict(module="CommsMC", cfg="CommsMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="CommsMC", cfg="CommsMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="CommsMC", cfg="CommsMC_gen.cfg", kind="gen")]
MUST = ["send", "advance", "advance:SimulationError", "block", "unblock", "blocknode", "unblocknode", "clear", "degrade", "connect","connect:SimulationError", "edge", "edge:SimulationError", "ignore"]
execute = comms.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p for _, p in gen if p["mgrs"][0]["kind"] == "r"]
    if q and len(g) > 1500: g = rng.sample(g, 1500)
    return g + [comms.random_program(rng, "r" if rng.random() < .6 else "pr", not q or rng.random() < .3) for _ in range(1500 if q else 25000)]
