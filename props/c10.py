from vlib import statecheck

PROP, SPEC = "C10", "ActiveStates"
MC = statecheck.mc('mix')
MUST = ['read', 'set', 'act', 'deact', 'mut', 'record', 'mimic']
execute = statecheck.execute


def programs(rng, tier, gen):
    return statecheck.programs(PROP, rng, tier, gen)
