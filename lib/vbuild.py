"""Builds the tools of /repo's *current working tree* into /verif/build (git-ignored).

Nothing that /repo's own build left behind is used (except apertium_config.h, a
configure product, for which a fallback is kept): sources are compiled from the
working tree, the flex scanners are regenerated from the *-format.xml files with
deformat.xsl/reformat.xsl, the shell tools are assembled from their *-header.sh
files, as apertium/Makefile.am does.  Objects are cached by a hash of flags,
source text and all headers, never by mtime.
"""
import itertools
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'apertium')
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), 'build')
OBJ = os.path.join(BUILD, 'obj')
BIN = os.path.join(BUILD, 'bin')
GENDIR = os.path.join(BUILD, 'gen')
JOBS = min(8, os.cpu_count() or 4)


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode('utf-8', 'replace')[-4000:]))
    return p.stdout


def _pkg(flag):
    try:
        return subprocess.run(['pkg-config', flag, 'lttoolbox', 'libxml-2.0', 'icu-uc', 'icu-io', 'icu-i18n'],
                              capture_output=True, text=True, check=True).stdout.split()
    except Exception:
        return ['-I/usr/include/libxml2'] if flag == '--cflags' else \
            ['-llttoolbox', '-lxml2', '-licuio', '-licui18n', '-licuuc', '-licudata']


_OPT = os.environ.get('VERIF_CXXOPT', '-O1').split()
_cflags = None
_libs = None
_hdrhash = None


def cflags():
    global _cflags
    if _cflags is None:
        _cflags = ['-std=c++23', '-w', '-DHAVE_CONFIG_H', '-I' + REPO, '-I' + SRC,
                   '-I' + os.path.join(HERE, 'fallback')] + _OPT + \
            [f for f in _pkg('--cflags') if not f.startswith('-std')]
    return _cflags


def libs():
    global _libs
    if _libs is None:
        _libs = ['-lstdc++fs'] + _pkg('--libs')
    return _libs


_n = itertools.count()


def _uniq():
    """a number no other thread or process uses for its temporary files"""
    return os.getpid() * 100000 + next(_n)


def hdrhash():
    """Hash of every header in /repo/apertium (coarse but sound dependency tracking)."""
    global _hdrhash
    if _hdrhash is None:
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk(SRC)):
            if '.libs' in d or '.deps' in d:
                continue
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.c')):
                    h.update(f.encode())
                    with open(os.path.join(d, f), 'rb') as fd:
                        h.update(fd.read())
        _hdrhash = h.hexdigest()
    return _hdrhash


def compile_one(path, extra=(), tag=''):
    with open(path, 'rb') as fd:
        text = fd.read()
    key = hashlib.sha256((' '.join(cflags()) + ' '.join(extra) + hdrhash() + os.path.basename(path)).encode() + text).hexdigest()[:24]
    os.makedirs(OBJ, exist_ok=True)
    out = os.path.join(OBJ, os.path.basename(path) + '.' + key + '.o')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % _uniq()
        _run(['g++'] + cflags() + list(extra) + ['-c', path, '-o', tmp])
        os.rename(tmp, out)
    return out


def lib_sources():
    """cc_sources of apertium/Makefile.am, plus nothing else."""
    txt = open(os.path.join(SRC, 'Makefile.am')).read()
    m = re.search(r'^cc_sources\s*=(.*?)(?<!\\)$', txt, re.S | re.M)
    return [w for w in m.group(1).replace('\\', ' ').split() if w.endswith('.cc')]


# preferred object sets; when linking fails the whole library is used instead
LIBSETS = {
    'apertium-pretransfer': ['pretransfer'],
    'apertium-compile-caps': ['caps_compiler', 'xml_reader'],
    'apertium-posttransfer': [], 'apertium-cleanstream': [], 'apertium-extract-caps': [],
    'apertium-wblank-attach': [], 'apertium-wblank-detach': [], 'apertium-wblank-mode': [],
    'apertium-gen-modes': [], 'apertium-adapt-docx': [],
}
MAINS = {
    'apertium-cleanstream': 'apertium_cleanstream.cc', 'apertium-pretransfer': 'apertium_pretransfer.cc',
    'apertium-posttransfer': 'apertium_posttransfer.cc',
    'apertium-multiple-translations': 'apertium-multiple-translations.cc',
    'apertium-transfer': 'apertium_transfer.cc', 'apertium-interchunk': 'apertium_interchunk.cc',
    'apertium-postchunk': 'apertium_postchunk.cc', 'apertium-preprocess-transfer': 'transferpp.cc',
    'apertium-compile-caps': 'apertium_compile_caps.cc', 'apertium-restore-caps': 'apertium_restore_caps.cc',
    'apertium-extract-caps': 'apertium_extract_caps.cc', 'apertium-tagger': 'apertium_tagger.cc',
    'apertium-filter-ambiguity': 'apertium_filter_ambiguity.cc',
    'apertium-perceptron-trace': 'apertium_perceptron_trace.cc',
    'apertium-tagger-apply-new-rules': 'apertium_tagger_apply_new_rules.cc',
    'apertium-tagger-readwords': 'apertium_tagger_readwords.cc',
    'apertium-tmxbuild': 'apertium_tmxbuild.cc',
    'apertium-wblank-attach': 'wblank-attach.cc', 'apertium-wblank-detach': 'wblank-detach.cc',
    'apertium-wblank-mode': 'wblank-mode.cc', 'apertium-adapt-docx': 'adapt_docx.cc',
    'apertium-gen-modes': 'gen_modes.cc',
}
FORMATS = {  # tool suffix -> format file
    'txt': 'txt-format.xml', 'html': 'html-format.xml', 'html-noent': 'html-noent-format.xml',
    'html-alt': 'html-alt-format.xml', 'odt': 'odt-format.xml', 'rtf': 'rtf-format.xml',
    'wxml': 'wxml-format.xml', 'latex': 'latex-format.xml', 'xlsx': 'xlsx-format.xml', 'pptx': 'pptx-format.xml',
    'mediawiki': 'mediawiki-format.xml', 'xpresstag': 'xpresstag-format.xml',
}
LFILES = {'apertium-prelatex': 'apertium-prelatex.l', 'apertium-postlatex': 'apertium-postlatex.l',
          'apertium-postlatex-raw': 'apertium-postlatex-raw.l'}
SCRIPTS = ['apertium', 'apertium-unformat', 'apertium-utils-fixlatex', 'apertium-validate-tagger',
           'apertium-validate-transfer', 'apertium-validate-interchunk', 'apertium-validate-postchunk',
           'apertium-validate-modes', 'apertium-validate-crx']


def _gen_flex(tool):
    """Return the path of the generated C++ scanner for a de/reformatter."""
    os.makedirs(GENDIR, exist_ok=True)
    if tool in LFILES:
        ltext = open(os.path.join(SRC, LFILES[tool]), 'rb').read()
    else:
        m = re.match(r'apertium-(des|re)(.*)$', tool)
        xsl = os.path.join(SRC, 'deformat.xsl' if m.group(1) == 'des' else 'reformat.xsl')
        ltext = _run(['xsltproc', xsl, os.path.join(SRC, FORMATS[m.group(2)])], cwd=SRC)
    key = hashlib.sha256(ltext).hexdigest()[:24]
    base = os.path.join(GENDIR, tool.replace('-', '_') + '.' + key)
    if not os.path.exists(base + '.cc'):
        # flex buffers its input names into #line directives only
        lf = base + '.%d.l' % _uniq()
        with open(lf, 'wb') as fd:
            fd.write(ltext)
        tmp = base + '.%d.tmp.cc' % _uniq()
        _run(['flex', '-L', '-Cfer', '-o' + tmp, lf])
        os.remove(lf)
        os.rename(tmp, base + '.cc')
    return base + '.cc'


def _version():
    try:
        m = re.search(r'PKG_VERSION_[A-Z]*|AC_INIT\(\[?apertium\]?,\s*\[?([0-9.]+)', open(os.path.join(REPO, 'configure.ac')).read())
        return m.group(1) or '0'
    except Exception:
        return '0'


def _gen_script(tool, dest):
    hdr = {'apertium': 'apertium-header.sh', 'apertium-unformat': 'apertium-unformat-header.sh',
           'apertium-utils-fixlatex': 'utils-fixlatex-header.sh'}.get(tool, 'validate-header.sh')
    body = open(os.path.join(SRC, hdr), 'rb').read()
    head = b'#!/usr/bin/env bash\n'
    if tool == 'apertium':
        head += ('APERTIUM_PATH="${APERTIUM_PATH:-%s}"\nAPERTIUM_DATADIR="${APERTIUM_DATADIR:-%s}"\napertium_version="Apertium %s"\n'
                 % (BIN, SRC, _version())).encode()
    elif tool == 'apertium-unformat':
        head += ('APERTIUM_PATH="%s"\n' % BIN).encode()
    elif tool.startswith('apertium-validate-'):
        dtd = tool[len('apertium-validate-'):] + '.dtd'
        body += ('xmllint --dtdvalid "%s/%s" --noout "$FILE1"\n' % (SRC, dtd)).encode()
    tmp = dest + '.%d.tmp' % _uniq()
    with open(tmp, 'wb') as fd:
        fd.write(head + body)
    os.chmod(tmp, 0o755)
    os.rename(tmp, dest)


def _link(out, objs):
    key = hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:16]
    stamp = out + '.' + key + '.bin'
    if not os.path.exists(stamp):
        tmp = stamp + '.%d.tmp' % _uniq()
        _run(['g++'] + _OPT + ['-o', tmp] + objs + libs())
        os.rename(tmp, stamp)
    return stamp


def _install(stamp, out):
    tmp = out + '.%d.ln' % _uniq()
    if os.path.lexists(tmp):
        os.remove(tmp)
    os.symlink(os.path.basename(stamp), tmp)
    os.rename(tmp, out)


def build(*tools):
    """Build the named tools; returns {tool: path}."""
    os.makedirs(BIN, exist_ok=True)
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(tools)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(tools):
    res, want = {}, {}
    flexes = [t for t in tools if t in LFILES or re.match(r'apertium-(des|re)(%s)$' % '|'.join(sorted(map(re.escape, FORMATS), key=len, reverse=True)), t)]
    for t in tools:
        if t in SCRIPTS:
            dest = os.path.join(BIN, t)
            _gen_script(t, dest)
            res[t] = dest
    srcs = {}
    with ThreadPoolExecutor(JOBS) as ex:
        gen = dict(zip(flexes, ex.map(_gen_flex, flexes)))
        for t in tools:
            if t in SCRIPTS:
                continue
            if t in gen:
                main, ls = gen[t], []
                if t in LFILES:
                    ls = ['latex_accentsmap']
            else:
                main = os.path.join(SRC, MAINS[t])
                ls = LIBSETS.get(t)
                if ls is None:
                    ls = [os.path.splitext(s)[0] for s in lib_sources()]
            want[t] = [main] + [os.path.join(SRC, s + '.cc') for s in ls]
            for s in want[t]:
                srcs[s] = None
        order = list(srcs)
        fl = set(gen.values())
        for s, o in zip(order, ex.map(lambda s: compile_one(s, ('-DGENFORMAT',) if False else (('-O0',) if s in fl else ())) if os.path.exists(s) else None, order)):
            srcs[s] = o

        def do_link(t):
            objs = [srcs[s] for s in want[t] if srcs[s]]
            out = os.path.join(BIN, t)
            try:
                st = _link(out, objs)
            except BuildError as e:
                if os.environ.get('VBUILD_DEBUG'):
                    print(t, str(e)[-2000:])
                full = [os.path.join(SRC, s) for s in lib_sources()]
                fobjs = [compile_one(s) for s in full]
                st = _link(out, [srcs[want[t][0]]] + fobjs)
            _install(st, out)
            return out
        names = list(want)
        for t, p in zip(names, ex.map(do_link, names)):
            res[t] = p
    return res


def build_variant(tag, tools, flags, extra=()):
    """Build the named tools with other flags for some sources ({file name: flags}) and more
    sources linked in; returns {tool: path}."""
    base = build(*tools)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        res = {}
        ls = [os.path.join(SRC, s) for s in lib_sources()]
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda s: compile_one(s, tuple(flags.get(os.path.basename(s), ()))), ls)) + [compile_one(s) for s in extra]
        for t in tools:
            out = base[t] + '@' + tag
            _install(_link(out, [compile_one(os.path.join(SRC, MAINS[t]))] + objs), out)
            res[t] = out
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


ALL = list(MAINS) + ['apertium-des' + f for f in FORMATS] + ['apertium-re' + f for f in FORMATS] + list(LFILES) + SCRIPTS

if __name__ == '__main__':
    ts = sys.argv[1:] or ALL
    r = build(*ts)
    for t in ts:
        print(t, r[t])
