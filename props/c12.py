from vlib import corecheck, knowledge

PROP, SPEC = "C12", "Knowledge"
MC = [dict(module="KnowledgeMC", cfg="KnowledgeMC_inv.cfg", kind="inv"),
      dict(module="KnowledgeMC", cfg="KnowledgeMC_gen.cfg", kind="gen")]
MUST = ["kset", "ksucc", "kclear", "resume", "kset:SimulationError", "ksucc:SimulationError", "snap",
        "set:SimulationError", "clear:SimulationError", "get:SimulationError", "getclear", "bset:SimulationError", "bclear", "bget", "bgetclear", "kevent"]


def execute(p):
    return knowledge.execute(p) if "names" in p else corecheck.execute(p)


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p for _, p in gen]
    for i, p in enumerate(g):
        for j, o in enumerate(p["ops"]): o["task"] = (i + j) % 3 == 0
    out = rng.sample(g, 3000) if q else rng.sample(g, min(len(g), 40000))
    out += [knowledge.random_program(rng, not q) for _ in range(1500 if q else 15000)]
    return out + corecheck.programs(["C12"], rng, tier, [], nrand=1200)
