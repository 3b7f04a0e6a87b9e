from vlib import reserve

PROP, SPEC = "C18", "Reserve"
MC = [dict(module="ReserveMC", cfg="ReserveMC_inv.cfg", kind="inv"),
      dict(module="ReserveMC", cfg="ReserveMC_gen.cfg", kind="gen")]
MUST = ["reserve", "take", "cancel", "put", "settle", "advance"]
execute = reserve.execute


def programs(rng, tier, gen):
    q = tier == "quick"
    out = reserve.from_generated(rng, gen, 3000 if q else 40000, 0.3)
    out += [reserve.random_program(rng, 0.3, long=not q) for _ in range(3000 if q else 20000)]
    return out
