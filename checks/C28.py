"""C28 command lines: the tools do what they were asked to, whichever way they are asked."""
from vt import *
import cli as K


def main(chk):
    cs = K.cases(chk, chk.n(1500, 20000), chk.n(40, 2500))
    B = K.Bench(chk)
    # a wrong expectation has to show
    ctl = [{'p': 'pretransfer', 'w': ['-n'], 'res': 'run', 'canon': [], 'inp': '', 'out': ''}, {'p': 'pretransfer', 'w': ['-n'], 'res': 'error', 'canon': [], 'inp': '', 'out': ''},
           {'p': 'pretransfer', 'w': ['in', 'out'], 'res': 'run', 'canon': [], 'inp': 'in', 'out': ''}, {'p': 'pretransfer', 'w': [], 'res': 'run', 'canon': [], 'inp': 'in', 'out': ''}]
    if any(B.one(-1 - i, c) is None for i, c in enumerate(ctl)):
        raise CheckError('a wrong expectation was not noticed')
    # the plainest ways differ from one another
    for n, os_ in [(n, K.VISIBLE[n]) for n in sorted(K.VISIBLE)] + [('tagger', k) for k in K.TAGGERS]:
        seen = {}
        for o in os_:
            words = K.spelled(n, o)
            rc, want, says = B.canonical({'p': n, 'canon': words, 'inp': '', 'out': ''})
            if rc == 0 and (want, says) in seen:
                chk.violation('apertium-%s %s does the same as %s' % (n, ' '.join(words), ' '.join(seen[want, says])), {'tool': n, 'words': words, 'input': B.stdin[n].decode()})
            seen[want, says] = words
            if n in K.FLUSHED:
                wz = ['-z'] + words
                rz, gz, _ = B.canonical({'p': n, 'canon': wz, 'inp': '', 'out': ''})
                if rz != rc or (gz[:-1] if gz.endswith(b'\0') else gz) != want:
                    chk.violation('apertium-%s %s gives %r, without -z %r' % (n, ' '.join(wz), gz[:300], want[:300]), {'tool': n, 'words': wz, 'input': B.stdin[n].decode()})
    runs = [c for c in cs if c['res'] == 'run']
    for c in runs:
        B.canonical(c)
    for i, (c, w) in enumerate(zip(cs, pmap(lambda x: B.one(*x), list(enumerate(cs))))):
        chk.traces += 1
        if w and len(chk.viol) < 3:
            chk.violation('apertium-%s %s: %s' % (c['p'], ' '.join(c['w']), w), {'tool': c['p'], 'words': c['w'], 'expected': c['res'], 'plainly': c['canon'], 'input': B.stdin[c['p']].decode(), 'in': B.infile[c['p']].decode()})
    zs = [c for c in runs if 'z' in c['given'] and not c['inp'] and not c['out']]
    zs = chk.rng.sample(zs, min(len(zs), chk.n(150, 1500)))
    for c, w in zip(zs, pmap(B.flush, zs)):
        if w and len(chk.viol) < 3:
            chk.violation('apertium-%s %s: %s' % (c['p'], ' '.join(c['w']), w), {'tool': c['p'], 'words': c['w'], 'input': B.stdin[c['p']].decode()})
    chk.extra.update(command_lines=len(cs), runs=len(runs), sessions=len(zs), ways_asked_plainly=len(B.canon))
    for c in runs[:3]:
        chk.sample(c)
