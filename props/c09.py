from vlib import statecheck

PROP, SPEC = "C09", "ActiveStates"
MC = statecheck.mc('mix', 'cart')
MUST = ['mimic', 'mimic:UpstageError', 'mimic:SimulationError', 'unmimic', 'unmimic:SimulationError', 'unmimicall', 'read', 'set', 'act', 'mimkv:SimulationError']
execute = statecheck.execute


def programs(rng, tier, gen):
    return statecheck.programs(PROP, rng, tier, gen)
