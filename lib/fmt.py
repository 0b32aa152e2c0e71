"""The formats of apertium's deformatters and reformatters as data for Deformat.tla.

specs/formats.json is the committed description of what each format takes as markup (its
tags, comments, character replacements, spaces and escapes), taken once from the
*-format.xml files; the specification is checked against the programs built from the
current files, so a change of the files is seen as a difference in behaviour.
    python3 lib/fmt.py      rewrites specs/formats.json
"""
import json, os, re, sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
PATH = os.path.join(os.path.dirname(HERE), 'specs', 'formats.json')


class Rx:
    """flex regular expression -> syntax tree"""

    def __init__(self, s, caseless=True):
        self.s, self.i, self.caseless = s, 0, caseless

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def lit(self, c):
        v = {c}
        if self.caseless and c.isascii():
            v |= {c.lower(), c.upper()}
        return {'k': 'set', 's': sorted(v), 'neg': False}

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        return {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v', 'a': '\a', 'b': '\b', '0': '\0'}.get(c, c)

    def alt(self):
        a = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            a.append(self.cat())
        return a[0] if len(a) == 1 else {'k': 'alt', 'a': a}

    def cat(self):
        a = []
        while self.peek() not in ('', '|', ')'):
            a.append(self.rep())
        return a[0] if len(a) == 1 else {'k': 'cat', 'a': a}

    def rep(self):
        x = self.atom()
        while True:
            c = self.peek()
            if c in ('*', '+', '?'):
                self.i += 1
                x = {'k': {'*': 'star', '+': 'plus', '?': 'opt'}[c], 'r': x}
                continue
            m = re.match(r'\{(\d+)(,(\d*))?\}', self.s[self.i:])
            if m:
                self.i += m.end()
                lo, hi = int(m[1]), int(m[3] or m[1])
                x = {'k': 'cat', 'a': [x] * lo + [{'k': 'opt', 'r': x}] * (hi - lo)}
                continue
            return x

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == '(':
            x = self.alt()
            assert self.s[self.i] == ')', self.s
            self.i += 1
            return x
        if c == '"':
            a = []
            while self.s[self.i] != '"':
                d = self.s[self.i]
                self.i += 1
                a.append(self.lit(self.esc() if d == '\\' else d))
            self.i += 1
            return a[0] if len(a) == 1 else {'k': 'cat', 'a': a}
        if c == '[':
            neg = self.peek() == '^'
            if neg:
                self.i += 1
            v, first = set(), True
            while self.peek() != ']' or first:
                first = False
                d = self.s[self.i]
                self.i += 1
                if d == '\\':
                    d = self.esc()
                if self.peek() == '-' and self.s[self.i + 1] != ']':
                    self.i += 1
                    e = self.s[self.i]
                    self.i += 1
                    if e == '\\':
                        e = self.esc()
                    v |= {chr(k) for k in range(ord(d), ord(e) + 1)}
                else:
                    v.add(d)
            self.i += 1
            if self.caseless:
                v |= {x.lower() for x in v if x.isascii()} | {x.upper() for x in v if x.isascii()}
            return {'k': 'set', 's': sorted(v), 'neg': neg}
        if c == '.':
            return {'k': 'set', 's': ['\n'], 'neg': True}
        if c == '\\':
            return self.lit(self.esc())
        if c == '^' and self.i == 1:
            return {'k': 'bol'}
        assert c not in '/{<$ \t\n', (c, self.s)
        return self.lit(c)


def rx(s, caseless):
    s = s.rstrip(' \t')      # flex ends a pattern at unquoted white space
    p = Rx(s, caseless)
    r = p.alt()
    assert p.i == len(s), (s, p.i)
    return r


def cstr(s):
    """value of a C string literal's body"""
    return re.sub(r'\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r'}.get(m[1], m[1]), s, flags=re.S)


def load_format(path):
    f = ET.parse(path).getroot()
    o = f.find('options')
    cl = o.find('case-sensitive').get('value') == 'no'
    rules = f.find('rules')
    frs = rules.findall('format-rule')
    begins = [r for r in frs if r.get('type') == 'comment']

    def rule(r):
        d = {'eos': r.get('eos') == 'yes', 'eoh': r.get('eoh') == 'yes', 'push': 0}
        if r.get('type') == 'comment':
            # a begin expression that occurs twice would name two states
            ns = [k + 1 for k, b in enumerate(begins) if b.find('begin').get('regexp') == r.find('begin').get('regexp')]
            assert len(ns) == 1, (path, ns)
            return dict(d, act='begin', push=ns[0], re=rx(r.find('begin').get('regexp'), cl))
        return dict(d, act='tag', re=rx(r.find('tag').get('regexp'), cl))

    def plain(act, re_):
        return {'act': act, 're': re_, 'eos': False, 'eoh': False, 'push': 0}
    esc = rx(o.find('escape-chars').get('regexp'), False)
    anyc = {'k': 'set', 's': [], 'neg': True}
    init = [rule(r) for r in frs]
    subst, pref = {}, {}
    for rr in rules.findall('replacement-rule'):
        init.append(plain('repl', rx(rr.get('regexp'), cl)))
        for e in rr.findall('replace'):
            src, tgt = cstr(e.get('source')), cstr(e.get('target'))
            subst[src] = tgt
            if e.get('prefer') == 'yes':
                pref[tgt] = src
    init += [plain('space', rx(o.find('space-chars').get('regexp'), cl)), plain('esc', rx(o.find('escape-chars').get('regexp'), cl)),
             plain('char', rx('.', cl))]
    states = []
    for b in begins:
        k = int(b.get('priority'))
        st = [rule(r) for r in sorted((r for r in frs if int(r.get('priority')) < k), key=lambda r: int(r.get('priority')))]
        st.append(plain('end', rx(b.find('end').get('regexp'), cl)))
        st.append(plain('inner', anyc))
        states.append(st)
    if esc['k'] == 'alt':
        esc = {'k': 'set', 's': sorted({c for x in esc['a'] for c in x['s']}), 'neg': any(x['neg'] for x in esc['a'])}
    assert not esc['neg']
    return {'name': f.get('name'), 'init': init, 'states': states, 'esc': esc['s'],
            'subst': [[k, list(v)] for k, v in sorted(subst.items())], 'pref': [[k, list(v)] for k, v in sorted(pref.items())],
            'large': int(o.find('largeblocks').get('size'))}


def load():
    return json.load(open(PATH, encoding='utf-8'))


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    import vbuild
    d = {k: load_format(os.path.join(vbuild.SRC, v)) for k, v in vbuild.FORMATS.items()}
    with open(PATH, 'w', encoding='utf-8') as fd:
        json.dump(d, fd, ensure_ascii=False, separators=(',', ':'))
        fd.write('\n')
    for k, v in d.items():
        print(k, len(v['init']), len(v['states']), len(v['subst']), ''.join(v['esc']), v['large'])
        print('   reserved targets:', [x for x in v['subst'] if set(x[1]) & set('[]{}^$/\\@<>')][:12], [x for x in v['subst'] if len(x[1]) != 1][:5])
