"""C13: compiled categories and attributes denote exactly what the rule file lists."""
from vt import *
import xfer, xsuite


def main(chk):
    for st in 'tip':
        ps = [xsuite.parts(st, ['<sg>', '<pl>', '<m>'], 3, chk.thorough)]
        c = xsuite.categories(st)
        if not chk.thorough:
            keep = list(range(0, len(c[0]), 3))
            m = {k + 1: i + 1 for i, k in enumerate(keep)}
            c = ([c[0][k] for k in keep], [dict(x, rs=m[x['rs']]) for x in c[1] if x['rs'] in m])
        R, C = xsuite.suites(*ps, c)
        xfer.run_all(chk, 'categories and attributes, stage ' + st, R, C)
    chk.assumptions = ['lemmas of categories are written in small letters or as globs of them']
