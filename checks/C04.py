"""C04 the stream filters: posttransfer squeezes spaces only, cleanstream keeps the units only."""
from vt import *
import gen

OPS = {'Start': 'FStart', 'Step': 'FStep', 'Stop': 'FStop'}


def unit(r):
    return '^' + gen.word(r, spaces=.1) + ('/' + gen.word(r) + gen.tags(r) if r.random() < .7 else '') + r.choice(['', '', '[', '[[x]]', ']']) + '$'


def stream(r, n, nul):
    out = []
    for _ in range(n):
        x = r.random()
        if x < .35:
            out.append(unit(r))
        elif x < .45:
            out.append('[' + gen.blank_body(r, 6, bad='[]') + ']')
        elif x < .52:
            out.append(gen.wblank(r) + unit(r))
        elif x < .6:
            out.append(' ' * r.randint(1, 6))
        elif x < .63 and nul:
            out.append('\0')
        else:
            out.append(gen.text(r))
    return ''.join(out)


def args(opt):
    return (['-n'] if opt['n'] else []) + (['-b'] if opt['b'] else [])


def main(chk):
    b = vbuild.build('apertium-posttransfer', 'apertium-cleanstream')
    px, pc = b['apertium-posttransfer'], b['apertium-cleanstream']
    for which, mi in (('x', chk.n(5, 6)), ('c', chk.n(3, 4))):
        t = tlc('MCFilters', 'INIT Init\nNEXT Next\nCONSTANTS MaxItems = %d\n Tool = "%s"\nINVARIANTS Squeezed Kept_ok Dump\n' % (mi, which), mem='10g', timeout=800)
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace)
        chk.add_tlc(t)
        cases = tlc_cases(t)
        if which == 'x':
            cs = sorted((dec(c['i']), dec(c['o'])) for c in cases)
            cs = [c for c in cs]
            replay_batch(chk, 'posttransfer', [px, '-z'], cs)
        else:
            # cleanstream has no flush: one process per case
            cases.sort(key=lambda c: (c['i'], c['n'], c['b']))
            def one(c):
                cmd = [pc] + args(c)
                q = run(cmd, dec(c['i']))
                return (cmd, c, q)
            for cmd, c, q in pmap(one, cases):
                if q.rc != 0 or q.text != dec(c['o']):
                    q = run(cmd, dec(c['i']))
                    if q.rc != 0 or q.text != dec(c['o']):
                        chk.violation('cleanstream %s: the specification maps %r to %r, the program wrote %r' % (cmd[1:], c['i'], c['o'], q.text),
                                      {'cmd': cmd, 'input': c['i'], 'expected': c['o'], 'observed': q.text})
                        if len(chk.viol) > 3:
                            break
                else:
                    chk.traces += 1
        chk.sample({'from': 'TLC', 'case': cases[len(cases) // 2]})
        chk.extra['cases_replayed_into_code'] = chk.extra.get('cases_replayed_into_code', 0) + len(cases)
    r = chk.rng
    recs = []
    for k in range(chk.n(2000, 16000)):
        opt = {'t': r.choice('xc'), 'n': r.random() < .5, 'b': r.random() < .5}
        x = opt['t'] == 'x'
        recs.append({'opt': opt, 'inp': stream(r, r.randint(1, 14) if k % 40 else 150, x) or ' ', 'cmd': [px] + r.choice([[], ['-z']]) if x else [pc] + args(opt)})

    def rerun(rec):
        res = run(rec['cmd'], rec['inp'])
        return res.text if res.rc == 0 else res.text + '@EXIT %s@' % res.rc
    for rec, o in zip(recs, pmap(rerun, recs)):
        rec['out'] = o
    for rec in recs[:2]:
        chk.sample({'from': 'recorded', 'cmd': rec['cmd'][1:], 'in': rec['inp'][:300], 'out': rec['out'][:300]})
    conform(chk, 'posttransfer/cleanstream', 'TraceFilters', OPS, recs, rerun=rerun)
    chk.assumptions = ['well-formed streams: brackets inside blanks are escaped; posttransfer runs on non-empty input']
