"""C22 restore-caps: the compiled rules decide the case of every word as written; text and blanks survive."""
from vt import *
import caps


def main(chk):
    for name, (rs, cs) in [('matching', caps.fam_match()), ('structure', caps.fam_structure(chk.n(3, 5))), ('votes', caps.fam_votes()),
                           ('blanks', caps.fam_blanks()), ('random', caps.random_suite(chk.rng, chk.n(150, 1500), 8))]:
        caps.run_all(chk, name, rs, cs)
        chk.extra['cases_' + name] = len(cs)
        chk.extra['rule_files_' + name] = len(rs)
    chk.assumptions = ['forms are not empty; no escaped "/" in them; a rule that fits the words ending at one place in several '
                       'ways may use any one of them', 'letters of the specification (Latin, é ñ ž ж), no apostrophes inside words']
