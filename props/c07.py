from vlib import statecheck

PROP, SPEC = "C07", "ActiveStates"
MC = statecheck.mc('shared')
MUST = ['read', 'set', 'act', 'act:SimulationError', 'deact', 'deact:UpstageError', 'deactall']
execute = statecheck.execute


def programs(rng, tier, gen):
    return statecheck.programs(PROP, rng, tier, gen)
