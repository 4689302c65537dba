"""R03 momentum balance of the unsteady hydraulics."""
import numpy as np
from core import *
import hydlib

ID = 'R03'
RULE = ('random channels (3-10 nodes), forward and reverse flow, all weightings, 1-5 steps; non-trivial = more than one '
        'step or reverse flow somewhere')
N = {'quick': 1600, 'thorough': 60000}


def strategy(tier):
    return hydlib.strategy()


def rows(n):
    return list(range(2, 2 * n - 1, 2))


def check(c):
    done, cl = hydlib.judge(c, rows, 'momentum balance')
    return {'nontrivial': done > 1 or 'reverse-flow' in cl, 'classes': cl}
