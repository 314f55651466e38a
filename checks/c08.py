"""C08: stages are drained before what they produce is used."""
from checks import c07

TECHNIQUE = 'typestate/live-range analysis of pipeline stages: from every pipeline-building function the stage graph and each path\'s sequence of hand-overs, waits, closes and data uses is extracted and checked'
RULE = ('from the first item that can reach a stage until it is closed (or waited for with everything upstream drained) the building thread does not use what the stage function writes; a stage is not closed '
        'while a stage that feeds it can hold items; nothing is handed over after a close')
ASSUME = c07.ASSUME


def check(r, tier):
    c07.check(r, tier, lambda k, at: k in ('late', 'order', 'early'), RULE)
