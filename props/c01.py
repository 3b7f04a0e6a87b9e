from vlib import corecheck

PROP, SPEC = "C01", "Core"
MC = corecheck.mc('intr', 'event')
MUST = ['intr', 'start', 'yield', 'resume', 'act', 'deact', 'mimic', 'unmimic', 'mark', 'snap', 'pintr']
execute = corecheck.execute


def programs(rng, tier, gen):
    return corecheck.programs(['C01'], rng, tier, gen)
