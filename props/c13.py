from vlib import corecheck

PROP, SPEC = "C13", "Core"
MC = corecheck.mc('event')
MUST = ['succ', 'succ:SimulationError', 'reset', 'done', 'crash:UpstageError', 'snap']
execute = corecheck.execute


def programs(rng, tier, gen):
    return corecheck.programs(['C13'], rng, tier, gen)
