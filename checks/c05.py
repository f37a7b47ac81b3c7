from vf.common import *
from vf import heap

def check(c):
    heap.go(c, weak=False)
