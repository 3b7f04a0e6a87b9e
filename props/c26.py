import importlib
import random

from vlib import repro

PROP, SPEC = "C26", "Repro"
MC = [dict(module="ReproMC", cfg="ReproMC_inv.cfg", kind="inv", tiers=("quick",)),
      dict(module="ReproMC", cfg="ReproMC_deep.cfg", kind="inv", tiers=("thorough",)),
      dict(module="ReproMC", cfg="ReproMC_gen.cfg", kind="gen")]
MUST = ["begin", "wait", "own", "noise", "lines", "end"]
LIMIT = 60.0
execute = repro.execute
DRIVERS = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24]


def programs(rng, tier, gen):
    q = tier == "quick"
    g = [p["ops"] for _, p in gen]
    if q: g = rng.sample(g, 1000)
    out = [repro.ops_program(rng, o) for o in g]
    out += [repro.mix_program(rng, rng.random() < .3) for _ in range(1500 if q else 25000)]
    for d in DRIVERS:       # the programs of the other checks, as models
        m = f"props.c{d:02d}"
        ps = importlib.import_module(m).programs(random.Random(rng.random()), "quick", [])
        out += [repro.drv_program(rng, m, x) for x in rng.sample(ps, 40 if q else 600)]
    return out
