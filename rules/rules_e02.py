from rules_e01 import *


def run(P, R):
    run_status(P, R, True, E02_EXEMPT)
    R.need("status-fate", 40)
