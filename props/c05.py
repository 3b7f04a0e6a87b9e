from vlib import corecheck

PROP, SPEC = "C05", "Core"
MC = corecheck.mc('nucleus')
MUST = ['setw', 'nucadd', 'nucrm', 'intr', 'snap']
execute = corecheck.execute


def programs(rng, tier, gen):
    return corecheck.programs(['C05'], rng, tier, gen)
