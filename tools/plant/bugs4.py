"""Fourth round: iteration thresholds, seeds."""
SM = 'sureal/subjective_model.py'
PC = 'sureal/pc_subjective_model.py'
RT = 'sureal/routine.py'
DR = 'sureal/dataset_reader.py'
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo='from lib import *\n' + demo))
