"""C01 pretransfer: compound splitting is exact and loses nothing."""
from vt import *
import gen


def unit(r, opt):
    wb = gen.wblank(r) if r.random() < 0.3 else ('[[' + gen.blank_body(r, 6, bad=']').replace(']', '\\]').replace('\\\\]', '\\]') + ']]' if r.random() < 0.1 else '')
    if wb and not ok_wb(wb):
        wb = ''
    k = r.random()
    sf = (gen.word(r) + '/') if opt['n'] else ''
    if k < 0.15:
        ana = r.choice('*@#') + gen.word(r, spaces=0.1).replace('\\#', '').replace('#', '') 
        if r.random() < 0.3:
            ana += '+' + gen.word(r)
        if ana[0] == '#':
            ana = '#' + ana[1:]
        return wb + '^' + sf + ana + '$'
    ps = []
    for i in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
        ps.append(gen.word(r, spaces=0.1) * (r.random() < 0.95) + gen.tags(r, 1, 4))
    if r.random() < 0.1:
        ps[-1] = gen.word(r, spaces=0.1) if len(ps) > 1 else ps[-1]
    sep = '+' if not (opt['e'] and r.random() < 0.4) else '~'
    if not opt['e'] and r.random() < 0.15:
        sep = '~'
    q = ''
    if r.random() < 0.3:
        q = '# ' + gen.word(r, spaces=0.15)
    if q and sep == '+' and len(ps) > 1 and r.random() < 0.4:
        ana = ps[0] + q + sep + sep.join(ps[1:])
    else:
        ana = sep.join(ps) + q
    pre = ''
    if not opt['n'] and r.random() < 0.2:
        pre = gen.word(r) + '/'
    return wb + '^' + sf + pre + ana + '$'


def ok_wb(wb):
    b = wb[2:-2]
    i = 0
    while i < len(b):
        if b[i] == '\\':
            i += 2
            if i > len(b):
                return False
            continue
        if b[i] in '[]':
            return False
        i += 1
    return True


def stream(r, opt, n):
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.5:
            out.append(unit(r, opt))
        elif x < 0.7:
            out.append(gen.superblank(r))
        else:
            out.append(gen.text(r))
        if x > 0.97:
            out.append('\0')
    return ''.join(out)


def cmdline(tool, opt, z):
    return [tool] + (['-e'] if opt['e'] else []) + (['-n'] if opt['n'] else []) + (['-z'] if z else [])


def main(chk):
    tool = vbuild.build('apertium-pretransfer')['apertium-pretransfer']
    # A. exhaustive model; every enumerated stream is replayed into the program
    runs = [(1, True)] + ([(2, False)] if chk.thorough else [])
    for mi, rich in runs:
        t = tlc('MCPretransfer', 'INIT Init\nNEXT Next\nCONSTANTS MaxItems = %d\n Rich = %s\nINVARIANTS SplitsCorrectly BackInText Dump\n' %
                (mi, 'TRUE' if rich else 'FALSE'), mem='10g', timeout=800)
        if t.violated:
            raise CheckError('the specification itself violates ' + t.violated + '\n' + t.trace)
        cases = tlc_cases(t)
        chk.add_tlc(t)
        for e in (False, True):
            for n in (False, True):
                cs = [(dec(c['i']), dec(c['o'])) for c in cases if c['e'] == e and c['n'] == n]
                cs.sort()
                for c in cs[:2]:
                    chk.sample({'from': 'TLC', 'e': e, 'n': n, 'in': c[0], 'out': c[1]}, 4)
                replay_batch(chk, 'pretransfer', cmdline(tool, {'e': e, 'n': n}, True), cs)
        chk.extra['cases_replayed_into_code'] = chk.extra.get('cases_replayed_into_code', 0) + len(cases)
    # B. recorded runs validated by the same machine
    r = chk.rng
    recs = []
    for k in range(chk.n(1500, 15000)):
        opt = {'e': r.random() < 0.5, 'n': r.random() < 0.5}
        inp = stream(r, opt, r.randint(1, 10) if k % 50 else 200)
        recs.append({'opt': opt, 'inp': inp, 'cmd': cmdline(tool, opt, r.random() < 0.5)})
    for rec, res in zip(recs, pmap(lambda x: run(x['cmd'], x['inp']), recs)):
        rec['out'] = res.text if res.rc == 0 else res.text + '@EXIT %s@' % res.rc
    for rec in recs[:2]:
        chk.sample({'from': 'recorded', 'cmd': rec['cmd'][1:], 'in': rec['inp'][:300], 'out': rec['out'][:300]})

    def rerun(rec):
        res = run(rec['cmd'], rec['inp'])
        return res.text if res.rc == 0 else res.text + '@EXIT %s@' % res.rc
    conform(chk, 'pretransfer', 'TracePretransfer', {'Start': 'PStart', 'Step': 'PStep', 'Stop': 'PStop'}, recs, rerun=rerun)
    chk.assumptions = ['inputs are well-formed streams: reserved characters escaped, a word-bound blank immediately followed by its unit, '
                       'a multiword queue only after the tags of the head or of the last joined word']
