import simcase
from c01 import init
def strategy(tier):
    return simcase.strategy(True)
def run(case):
    return simcase.run(case, True)
