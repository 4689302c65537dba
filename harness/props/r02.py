"""R02 continuity and boundary conditions of the unsteady hydraulics."""
import numpy as np
from core import *
import hydlib

ID = 'R02'
RULE = ('random channels (3-10 nodes) with storage and seepage, open/closed, 1-5 steps of varying inflow and level; '
        'non-trivial = more than one step or storage/seepage present')
N = {'quick': 1600, 'thorough': 60000}


def strategy(tier):
    return hydlib.strategy()


def rows(n):
    return [0] + list(range(1, 2 * n - 1, 2)) + [2 * n - 1]


def check(c):
    done, cl = hydlib.judge(c, rows, 'volume balance')
    return {'nontrivial': done > 1 or any(c['area']), 'classes': cl}
