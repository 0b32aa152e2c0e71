"""Seeded random generators of well-formed Apertium streams."""

ALPHA = list('abcdefgxyz') + ['é', 'ñ', 'Ş', 'ł', 'ж', '語', '𝒳', '😀', 'A', 'B', 'É', '0', '9', '-', '.', ',', "'", '"', '&', ';', ':', '!', '?', '(', ')', '=', '%', '|', '_', '·']
RESERVED = list('[]{}^$/\\@<>')
TAGCH = list('abcdefghijklmnpqrstuvxyz0123456789')


def word(r, n=6, esc=0.12, chars=ALPHA, spaces=0.0):
    out = []
    for _ in range(r.randint(1, n)):
        x = r.random()
        if x < esc:
            out.append('\\' + r.choice(RESERVED + ['+', '~', '#', '*']))
        elif x < esc + spaces:
            out.append(' ')
        else:
            out.append(r.choice(chars))
    return ''.join(out)


def tag(r, odd=0.1):
    n = r.randint(1, 5)
    t = ''.join(r.choice(TAGCH) for _ in range(n))
    if r.random() < odd:
        t = t[:1] + r.choice(['+', '~', '_', '-', ':', '/', '.', 'é', '@→']) + t[1:]
    return '<' + t + '>'


def tags(r, lo=0, hi=4, odd=0.1):
    return ''.join(tag(r, odd) for _ in range(r.randint(lo, hi)))


def blank_body(r, n=8, bad=()):
    out = []
    for _ in range(r.randint(0, n)):
        x = r.random()
        if x < 0.15:
            out.append('\\' + r.choice('[]\\^$@<'))
        elif x < 0.35:
            out.append(r.choice([c for c in '<>^$/{}+~#@ \n\t*"' if c not in bad]))
        else:
            out.append(r.choice(ALPHA))
    return ''.join(out)


def superblank(r, n=8):
    b = blank_body(r, n)
    return '[' + b + ']'


def wblank_item(r):
    return r.choice('tc') + ':' + r.choice(['b', 'i', 's', 'span', 'a']) + ':' + ''.join(r.choice('abcdef0123456789') for _ in range(r.randint(1, 6)))


def wblank(r, n=3):
    return '[[' + '; '.join(wblank_item(r) for _ in range(r.randint(1, n))) + ']]'


def text(r, n=6, chars=None, nl=True):
    out = []
    for _ in range(r.randint(0, n)):
        x = r.random()
        if x < 0.4:
            out.append(' ')
        elif x < 0.55:
            out.append('\\' + r.choice(RESERVED))
        elif x < 0.62 and nl:
            out.append('\n')
        else:
            out.append(r.choice(chars or ALPHA))
    return ''.join(out)
