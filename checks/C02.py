"""C02 wblank-attach: every unit gets exactly the spans that enclose it."""
from vt import *
import gen

TOOL, MODULE, OPS = 'apertium-wblank-attach', 'WblankAttach', {'Start': 'AStart', 'Step': 'AStep', 'Stop': 'AStop'}


def items(r):
    pool = ['t:b:a1', 't:i:b2', 't:s:c3', 't:b:a', 'x', 'é:ü', 't:b:a1;', 'a\\]b', 'q\\\\r']
    return [r.choice(pool).rstrip(';') for _ in range(r.randint(0 if r.random() < .1 else 1, 4))]


def unit(r):
    return '^' + gen.word(r, spaces=.1) + ('/' + gen.word(r) + gen.tags(r) if r.random() < .7 else '') + r.choice(['', '', '[', '[[x]]', ']']) + '$'


def stream(r, n, balanced):
    out, depth = [], 0
    for _ in range(n):
        x = r.random()
        if x < .22:
            seps = r.choice([('; ', '', ''), (';', '', ''), (' ; ', ' ', ';'), ('; ;', ';', ' '), ('  ;', '', '  '), ('; ;  ', ' ;', '; ;'), (' ;;', '  ', ' ;')])
            out.append('[[' + seps[1] + seps[0].join(items(r)) + seps[2] + ']]')
            depth += 1
        elif x < .4:
            if depth or not balanced:
                out.append('[[/]]')
                depth = max(0, depth - 1)
        elif x < .7:
            out.append(unit(r))
        elif x < .8:
            b = gen.blank_body(r, 6, bad='[]')
            out.append('[' + b + ']')
        elif x < .83:
            if not balanced or depth == 0:
                out.append('\0')
                depth = 0
        else:
            out.append(gen.text(r))
        if not balanced and r.random() < .06:      # a segment cut short by a flush
            c = '[[' + '; '.join(items(r)) + ']]' + unit(r) if r.random() < .7 else '[' + gen.blank_body(r, 6, bad='[]') + ']'
            out.append(c[:r.randint(1, len(c))].rstrip('\\') + '\0')
            depth = 0
    if balanced:
        out.append('[[/]]' * depth)
    return ''.join(out)


def main(chk):
    tool = vbuild.build(TOOL)[TOOL]
    for mi, rich in ([(4, False), (2, True)] if not chk.thorough else [(5, False), (3, True)]):
        t = tlc('MCWblankAttach', 'INIT Init\nNEXT Next\nCONSTANTS MaxItems = %d\n Rich = %s\nINVARIANTS Attached NoDup Dump\n' % (mi, 'TRUE' if rich else 'FALSE'),
                mem='10g', timeout=800)
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace)
        chk.add_tlc(t)
        cs = sorted((dec(c['i']), dec(c['o'])) for c in tlc_cases(t))
        for c in cs[len(cs) // 2:len(cs) // 2 + 2]:
            chk.sample({'from': 'TLC', 'in': c[0], 'out': c[1]})
        replay_batch(chk, 'wblank-attach', [tool, '-z'], cs)
        chk.extra['cases_replayed_into_code'] = chk.extra.get('cases_replayed_into_code', 0) + len(cs)
    r = chk.rng
    recs = [{'opt': 0, 'inp': stream(r, r.randint(1, 14) if k % 40 else 150, r.random() < .6), 'cmd': [tool] + r.choice([[], ['-z']])} for k in range(chk.n(1500, 15000))]

    def rerun(rec):
        res = run(rec['cmd'], rec['inp'])
        return res.text if res.rc == 0 else res.text + '@EXIT %s@' % res.rc
    for rec, o in zip(recs, pmap(rerun, recs)):
        rec['out'] = o
    for rec in recs[:2]:
        chk.sample({'from': 'recorded', 'in': rec['inp'][:300], 'out': rec['out'][:300]})
    conform(chk, 'wblank-attach', 'TraceWblankAttach', OPS, recs, rerun=rerun)
    chk.assumptions = ['well-formed streams: brackets inside blanks are escaped; no escaped space or semicolon in a word-bound blank']
