from vlib import statecheck

PROP, SPEC = "C06", "ActiveStates"
MC = statecheck.mc('lin')
MUST = ['read', 'set', 'act', 'act:SimulationError', 'deact', 'deact:SimulationError', 'deactall']
execute = statecheck.execute


def programs(rng, tier, gen):
    return statecheck.programs(PROP, rng, tier, gen)
