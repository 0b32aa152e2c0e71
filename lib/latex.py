"""LaTeX documents for Latex.tla, and the programs around them."""
import re
from vt import *

GRAVE = {'`': 'aàeèiìoòuùyỳAÀEÈIÌOÒUÙYỲ', "'": 'aáeéiíoóuúyýAÁEÉIÍOÓUÚYÝ', '^': 'aâeêiîoôuûyŷAÂEÊIÎOÔUÛYŶ',
         '"': 'aäeëiïoöuüyÿAÄEËIÏOÖUÜYŸ', '~': 'nñNÑ', 'c': 'cçCÇ'}
LIG = [('{\\oe}', 'œ'), ('{\\OE}', 'Œ'), ('{\\ae}', 'æ'), ('{\\AE}', 'Æ'), ('{\\aa}', 'å'), ('{\\AA}', 'Å'), ('{\\o}', 'ø'), ('{\\O}', 'Ø'),
       ('{\\ss}', 'ß'), ('{\\l}', 'ł')]
GER = list(zip('oOaAuUsS', 'öÖäÄüÜßß'))
STR = {'star': '_STAR', 'param': '<PARAM>', 'eparam': '</PARAM>', 'verb': '<VERB>', 'everb': '</VERB>', 'hash': '<HASH/>', 'hash_': '<HASH_',
       'br': '<BR/>', 'lbrace': '<LEFTESCAPEDBRACE/>', 'rbrace': '<RIGHTESCAPEDBRACE/>', 'percent': '<ESCAPEDPERCENT/>',
       'dollar': '<ESCAPEDDOLLAR/>', 'amp': '&amp;', 'mpar': '<MATH_PAR>', 'empar': '</MATH_PAR>', 'mbra': '<MATH_BRA>', 'embra': '</MATH_BRA>',
       'contents': '<CONTENTS>', 'econtents': '</CONTENTS>', 'noeos': '</CONTENTS-noeos>', 'quot': '&quot;', 'hashsign': '<HASHSIGN/>',
       'comment': '<COMMENT>', 'ecomment': '</COMMENT>', 'nbsp': '&NBSP;', 'mds': '<MATH_DOLLARS>', 'md': '<MATH_DOLLAR>',
       'emds': '</MATH_DOLLARS>', 'emd': '</MATH_DOLLAR>', 'apos': '&apos;', 'lt': '&lt;', 'gt': '&gt;', 'ampchar': '<AMP/>',
       'textit': '<textit/>', 'textbf': '<textbf/>', 'emph': '<emph/>', 'begin': '\\begin{', 'end': '\\end{', 'ngerman': 'ngerman'}
WORDS = [('&quot;', '"'), ('&apos;', "'"), ('&lt;', '<'), ('&gt;', '>'), ('&amp;', '\\&'), ('<AMP/>', '&'), ('<LEFTESCAPEDBRACE/>', '\\{'),
         ('<RIGHTESCAPEDBRACE/>', '\\}'), ('<ESCAPEDPERCENT/>', '\\%'), ('<ESCAPEDDOLLAR/>', '\\$'), ('<MATH_DOLLARS>', '$$', 'math'),
         ('<MATH_DOLLAR>', '$', 'math'), ('<MATH_PAR>', '\\('), ('</MATH_PAR>', '\\)'), ('<MATH_BRA>', '\\['), ('</MATH_BRA>', '\\]'),
         ('<CONTENTS>', '{'), ('</CONTENTS>', '}'), ('&NBSP;', '~'), ('<BR/>', '\\\\'), ('<COMMENT>', '%', 'comment'), ('<PARAM>', '[', 'param'),
         ('<VERB>', '\\verb', 'verb'), ('<HASH/>', '\\#'), ('<HASHSIGN/>', '#')]


def table():
    acc = []
    for m, s in GRAVE.items():
        for l, c in zip(s[::2], s[1::2]):
            acc.append({'m': m, 'l': l, 'c': c, 'w': list('\\%s{%s}' % (m, '\\i' if l == 'i' else l))})
    return {'acc': acc, 'lig': [{'n': list(n), 'c': c} for n, c in LIG], 'ger': [{'l': l, 'c': c} for l, c in GER],
            'inv': {'?': '¿', '!': '¡'}, 'jhat': 'ĵ', 'lslash': 'ł', 'str': {k: list(v) for k, v in STR.items()},
            'words': [{'x': list(w[0]), 'y': list(w[1]), 'm': w[2] if len(w) > 2 else 'text'} for w in WORDS]}


# pieces of documents
TOKENS = ['z', ' ', '\n', "\\'a", "\\'{e}", '\\"{\\i}', "\\'\\i", '\\^{\\j}', '\\^\\j', '\\~n', '\\~{N}', '\\c{c}', '\\c c', '\\cc', '\\v{c}', '\\H{o}', '\\=a', '\\.z',
          "\\'é", "\\'{x}", '\\`', '{\\oe}', '{\\AE}', '{\\ss}', '{\\o}', '{\\l}', '\\l ', '\\label{q}', '\\oe ', '\\#', '\\#12', '#', '#1', '\\\\', '%q com}{[$\n',
          '%\n', '% <q> \\q &amp; #\n', '\\usepackage[q,é]{q}', '[q]', '[q#1<b>&]', '\\begin{itemize}', '\\end{itemize}', '\\begin{figure*}', '\\end{figure*}',
          '\\begin{tabular}{|q|}', '\\begin{equation}q_1 \\q{q} z\\end{equation}', '\\begin{eqnarray*}q\\end{eqnarray*}', '\\foo', '\\foo*', '\\foo{q}', '\\foo[q]{q}', '\\textit{z}',
          '\\emph {z}', '\\textbf{z \\foo y}', '\\textit{z \\emph{y} x}', '\\section{z}', '\\section*{z}', '\\section[y]{z}', '\\title{z}', '\\footnote{z}', '\\caption{z \\textbf{y}}',
          '\\item ', '\\item[y] z', '\\{', '\\}', '{q}', '{\\bf z}', '{ \\em z}', '{\\it q}', '{q {q}', '}', '\\%', '$', '$$', '$q<b$', '$$q \\$ \\\\$$', '$\\textit{q}$', '\\$', '\\(q\\)', '\\[q\\]',
          '\\(\\q{q}_2\\)', '?`', '!`', '"', '"o', "'", '``', "''", '<', '>', '\\&', '&', '~', '\\verb|q \\q{}%<b>|', '\\verb+q#+', '\\verb!q|!', '\\verb', '\\_', '\\,', '\\-', '\\ ', '\\;',
          '@', '/', '^', '_', ']', 'é', 'ł', 'ß', '¿', '&amp;', '&lt;', '\\cite{q}', '\\ref{q:q}', '\\includegraphics[q=1]{q.q}', '<q>', '</b>', '<BR/>', '\\a', '\\newcommand{\\q}[1]{#1}', '*', '1',
          '\\part{z}', '\\begin{block}{z}', '\\end{block}', '\\t', '\\end', '\\usepackage[ngerman]{q}"a']
EXTRA = ['\\`{O}', '\\"u', '\\"{U}', "\\'Y", '\\^o', '{\\OE}', '{\\ae}', '{\\aa}', '{\\AA}', '{\\O}', '\\thanks{z}', '\\subsection[y]{z}', '\\paragraph{z}', '\\chapter{z}', '\\parbox{q}',
         '\\frametitle{z}', '\\begin{thebibliography}{9}\\bibitem{q}q\\end{thebibliography}', '\\verb/q/', '\\verb#q#', '\\verb?q?', 'word', ' two words ', '\\documentclass[q]{q}\n', '\\maketitle\n',
         '\\begin{document}\n', '\\end{document}\n', '``z\'\'', 'z, z. ', 'ŵ', 'ñ', '\\begin{verbatim}\nq\n\\end{verbatim}', '$\\\\$', '%%\n', '\\#a', '$ $', '\\[', '\\]', '\\(', '\\)', '{\\sc z}', '{\\sf z}',
         '\\footnote{z $q$ z}', '\\textbf{\\textit{z}}', '\\emph{z}\n\n\\emph{z}', '\\item{q}', '\\%z', '100\\% ', '"s', '"U', '\\"\\i', '\\`\\i', '\\^{\\i}']


def hidden_text(out):
    """what of the deformatter's output is not in superblanks"""
    res, i, n = [], 0, len(out)
    while i < n:
        c = out[i]
        if c == '\\' and i + 1 < n:
            res.append(out[i + 1])
            i += 2
        elif c == '[':
            while i < n and out[i] != ']':
                i += 2 if out[i] == '\\' else 1
            i += 1
        else:
            res.append(c)
            i += 1
    return ''.join(res)


def letters(s):
    s = re.sub(r'&[A-Za-z]+;', '', s)
    return ''.join(c for c in s if not (c.isascii() and not c.isalpha()) and c not in '¿¡')


OPEN = {'$', '$$', '\\verb', '{q {q}', '}', '\\[', '\\]', '\\(', '\\)', '\\usepackage[ngerman]{q}"a'}


def docs(chk):
    """every pair of pieces, some to a document unless one of them leaves something open, and random documents"""
    r = chk.rng
    keep = chk.n(.45, 1)
    pairs = [(a, b) for a in TOKENS for b in TOKENS if r.random() < keep]
    ds = [[a, b] for a, b in pairs if (a in OPEN or b in OPEN) and (chk.thorough or r.random() < .3)]
    rest = [a + b + '\n' for a, b in pairs if a not in OPEN and b not in OPEN] + ['z %s y\n' % t for t in TOKENS + EXTRA if t not in OPEN]
    r.shuffle(rest)
    k = 12
    ds += [rest[i:i + k] for i in range(0, len(rest), k)]
    ds += [['z ', t, ' y'] for t in OPEN]
    # every accent on every letter it knows and on others, with and without braces
    acc = [f % (m, l) for m in '`\'^"~=.cHkbdruv' for l in ('aeiouyAEIOUYnNcCzx' if chk.thorough else 'aeiouyAEIOUYnNcCx') for f in ('z\\%s{%s}z ', 'z\\%s%s ')]
    ds += [acc[i:i + 24] for i in range(0, len(acc), 24)]
    # environments: names, white space, stars
    env = ['\\%s{%s%s}%sz' % (k, n, w, x) for k in ('begin', 'end') for n in ('q', 'q*', 'part2', 'part2*', 'X9x*') for w in ('', ' ', '\n') for x in ('', ' ', '\n\t', '\r\n')]
    ds += [env[i:i + 6] for i in range(0, len(env), 6)]
    ds += [['z %q\r\n', 'z\r\n', '%\r\n', t, '\r\n'] for t in ('z', '\\foo', '\\foo*', '[q\r\n]', '$q\r\n$', '\\#123', '\\#7z')]
    for _ in range(chk.n(500, 12000)):
        ds.append([r.choice(TOKENS + EXTRA + ['z', ' ', 'word '] * 12) for _ in range(r.choice([3, 4, 5, 6, 8, 14, 20]))])
    ds += [['\\usepackage[ngerman]{babel}\n'] + [r.choice(['"o', '"s', '"A', 'z', '"', ' ', "\\'a", '$', '%"a\n', '"z']) for _ in range(5)] for _ in range(30)]
    out, seen = [], set()
    for d in ds:
        s = ''.join(d).rstrip('\n') + '\n'
        if s not in seen and modelled(s):
            seen.add(s)
            out.append(s)
    return out


def modelled(s):
    # \begin and \end with a name in braces; \t{oo} and the Spanish marks lose something by design
    for m in re.finditer(r'\\(begin|end)(?![A-Za-z])', s):
        if not re.match(r'\{[A-Za-z0-9]+\*?\s*\}', s[m.end():]):
            return False
    return not re.search(r'\\t\{', s)
