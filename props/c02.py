from vlib import corecheck

PROP, SPEC = "C02", "Core"
MC = corecheck.mc('store', 'filter', 'cont', 'hold')
MUST = ['intr', 'done', 'xput', 'xcput', 'snap']
execute = corecheck.execute


def programs(rng, tier, gen):
    return corecheck.programs(['C02', 'C02f'], rng, tier, gen)
