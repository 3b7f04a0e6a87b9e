from vlib import corecheck

PROP, SPEC = "C04", "Core"
MC = corecheck.mc('queue')
MUST = ['start', 'setq', 'setq:SimulationError', 'clearq', 'crash:SimulationError', 'snap']
execute = corecheck.execute


def programs(rng, tier, gen):
    return corecheck.programs(['C04'], rng, tier, gen)
