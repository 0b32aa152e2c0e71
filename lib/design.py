"""fills the tables of DESIGN.md from seeded/ and known_findings.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'t-queue-set', 'cr-keep-order', 'ec-skip-esc', 'tw-star-one', 'wba-open-space', 't-combine-esc', 't-copycase-queue', 'i-ban-applied', 'p-unchunk-upper-esc', 'trx-attr-escape', 'elim-swap-level', 'gm-biltrans-opts', 'wm-z-name', 'wm-helped-half', 's-transfer-vars', 'ap-setvar-flush', 'lx-crlf', 'lx-envspace', 'lx-igrave', 'lx-starraw', 'cli-prelatex-i', 'cli-pretransfer-en'}


def main():
    p = os.path.join(V, 'DESIGN.md')
    s = open(p).read()
    k = json.load(open(os.path.join(V, 'known_findings.json')))
    s = re.sub(r'that failed\): (@NFIXED@|\d+)\.', 'that failed): %d.' % len(k['fixed']), s)
    s = re.sub(r'this repository: (@NFIND@|\d+) ', 'this repository: %d ' % len(k['findings']), s)
    rows = ['| bug | check | what it breaks | needs | |', '|---|---|---|---|---|']
    ms = []
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
        ms.append((m['property'], d, m))
    for c, d, m in sorted(ms, key=lambda x: x[:2]):
        rows.append('| %s | %s | %s | %s | %s |' % (d, c, m['what_it_breaks'], m['needs'], 'missed first' if d in MISSED else ''))
    t = '\n'.join(rows) + '\n'
    if '@SEEDED@' in s:
        s = s.replace('@SEEDED@\n', t)
    else:
        s = re.sub(r'\| bug \| check .*?\n(?=\n|\Z)', lambda _: t, s, flags=re.S)
    open(p, 'w').write(s)


main()
