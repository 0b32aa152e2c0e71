"""C03 wblank-detach: closes each unit's span right after the unit, and is undone by attaching."""
from vt import *
import gen

TOOL, OPS = 'apertium-wblank-detach', {'Start': 'DStart', 'Step': 'DStep', 'Stop': 'DStop'}


def unit(r):
    wb = gen.wblank(r) if r.random() < .5 else ''
    if r.random() < .1:
        wb = '[[' + r.choice(['a\\]b', 'q\\\\', '\\[', 'é:ü; ж']) + ']]'
    return wb + '^' + gen.word(r, spaces=.1) + ('/' + gen.word(r) + gen.tags(r) if r.random() < .7 else '') + r.choice(['', '', '[', '[[x]]', ']']) + '$'


def stream(r, n):
    out = []
    for _ in range(n):
        x = r.random()
        out.append(unit(r) if x < .6 else '[' + gen.blank_body(r, 6, bad='[]') + ']' if x < .75 else '\0' if x < .8 else gen.text(r))
        if r.random() < .06:      # a segment cut short by a flush
            c = unit(r) if r.random() < .7 else '[' + gen.blank_body(r, 6, bad='[]') + ']'
            out.append(c[:r.randint(1, len(c))].rstrip('\\') + '\0')
    return ''.join(out)


def main(chk):
    b = vbuild.build(TOOL, 'apertium-wblank-attach')
    tool, att = b[TOOL], b['apertium-wblank-attach']
    t = tlc('MCWblankDetach', 'INIT Init\nNEXT Next\nCONSTANTS MaxItems = %d\nINVARIANTS Detached RoundTrip Dump\n' % chk.n(3, 4), mem='10g', timeout=800)
    if t.violated:
        raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace)
    chk.add_tlc(t)
    cs = sorted((dec(c['i']), dec(c['o'])) for c in tlc_cases(t))
    for c in cs[len(cs) // 2:len(cs) // 2 + 2]:
        chk.sample({'from': 'TLC', 'in': c[0], 'out': c[1]})
    replay_batch(chk, 'wblank-detach', [tool, '-z'], cs)
    replay_batch(chk, 'wblank-attach after wblank-detach', [att, '-z'], [(o, i) for i, o in cs])
    chk.extra['cases_replayed_into_code'] = len(cs)
    r = chk.rng
    recs = [{'opt': 0, 'inp': stream(r, r.randint(1, 14) if k % 40 else 150), 'cmd': [tool] + r.choice([[], ['-z']])} for k in range(chk.n(1500, 15000))]

    def rerun(rec):
        res = run(rec['cmd'], rec['inp'])
        return res.text if res.rc == 0 else res.text + '@EXIT %s@' % res.rc
    for rec, o in zip(recs, pmap(rerun, recs)):
        rec['out'] = o
    for rec in recs[:2]:
        chk.sample({'from': 'recorded', 'in': rec['inp'][:300], 'out': rec['out'][:300]})
    conform(chk, 'wblank-detach', 'TraceWblankDetach', OPS, recs, rerun=rerun)
    chk.assumptions = ['well-formed streams: brackets inside blanks are escaped; a word-bound blank immediately precedes its unit']
