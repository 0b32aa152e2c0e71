"""C08: a rule that rejects itself has no effect on what is written."""
from vt import *
import xfer, xsuite


def shadow_case(chk):
    """the listed finding: a later rule whose pattern shares a category item with the rejected one is not tried"""
    sx = xsuite
    rs = sx.base('t', cats={'c2': [sx.cat(['<det>'])], 'c0': [sx.cat(['<n>']), sx.cat(['<det>'])]},
                 rules=[{'pat': ['c2'], 'act': [sx.rej(0)]}, {'pat': ['c0'], 'act': [sx.out(sx.lu(sx.lit('HIT')))]}])
    key = 'rejected rule hides a later rule sharing its pattern item'
    if any(k['key'] == key for k in chk.known):
        st = xfer.Stage(chk, rs, 'shadow')
        r = run(st.cmd, '^the<det>/el<det>$')
        if r.text not in ('^HIT$', '^el<det>$'):
            chk.violation('rejected rule with a twin: %r' % r.text, {'cmd': st.cmd, 'input': '^the<det>/el<det>$', 'rules': xfer.to_xml(rs)})
        chk.extra['known_finding_still_there'] = r.text != '^HIT$'
        chk.known_finding(key)
    else:
        xfer.run_all(chk, 'rejected rule with a twin', [rs], [{'rs': 1, 'segs': [sx.seg([sx.tw('the<det>', 'el<det>')])]}])


def main(chk):
    shadow_case(chk)
    for st in 'ti':
        R, C = xsuite.rejection(st, chk.n(3, 5))
        xfer.run_all(chk, 'rejection, stage ' + st, R, C)
    for st in 'tip':
        R, C = xfer.random_suite(chk, st, chk.n(50, 300), chk.n(40, 80), reject=0.8)
        xfer.run_all(chk, 'random rules, stage ' + st, R, C)
    chk.assumptions = ['the count given with shifting is at most the length of the pattern',
                       'categories of one rule file share no item (see the known finding)']
