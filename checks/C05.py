"""C05 null flush: every text of a session is answered before the next, as by a tool freshly started."""
from vt import *
import session as S


def main(chk):
    S.control(chk)
    k, n = chk.n((4, 3), (6, 3))
    H = S.histories(chk, k, n)     # the last text of a longer pool is fed by the eager clients only
    C = S.simple(chk, k) + S.transfer(chk, k, chk.n(4, 30)) + S.states(chk, k) + S.capitals(chk, k) + S.taggers(chk, k) + S.pipelines(chk, k + 1)
    f = S.run_all(chk, C, H)
    chk.extra['histories_per_configuration'] = len(H)
    c = C[3]
    chk.sample({'configuration': c.name, 'texts': c.texts, 'answers': [f[c.name, i] for i in range(len(c.texts))]})
