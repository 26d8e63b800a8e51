from . import braid_common as C

PROPERTY = 'C02'
ASSUMPTIONS = ['the Dynnikov action is faithful (cross-checked exhaustively against the Artin action on the free group within bounds)',
               'factor indices outside the range of the tables are not constructed by callers']
BOUNDS = {'quick': 'see families', 'thorough': 'see families'}


def prepare(tier):
    C.prepare('DGNF', tier)


def families(tier):
    return C.families('DGNF', tier)
