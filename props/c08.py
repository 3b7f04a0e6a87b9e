from vlib import statecheck

PROP, SPEC = "C08", "ActiveStates"
MC = statecheck.mc('cart')
MUST = ['read', 'read:SimulationError', 'act', 'deact', 'wp', 'wp:SimulationError']
execute = statecheck.execute


def programs(rng, tier, gen):
    return statecheck.programs(PROP, rng, tier, gen)
