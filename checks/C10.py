"""C10: values, conditions, assignments, macros and case in rules mean what they say."""
from vt import *
import xfer, xsuite


def main(chk):
    for st in 'tip':
        ps = [xsuite.conditions(st, ['a', 'A', 'b'] if not chk.thorough else ['a', 'A', 'b', 'É'], 2),
              xsuite.casing(st, ['a', 'B', '1', 'é'], 2 if not chk.thorough else 3)]
        ps.append(xsuite.parts(st, ['<sg>', '<pl>', '<m>'], 1))
        R, C = xsuite.suites(*ps)
        xfer.run_all(chk, 'rule language, stage ' + st, R, C)
        R, C = xfer.random_suite(chk, st, chk.n(60, 500), chk.n(24, 60), dictcase=0.2)
        xfer.run_all(chk, 'random rules, stage ' + st, R, C)
    chk.assumptions = ['letters outside the alphabet of the specification are not used']
