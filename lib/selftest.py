"""setup: parse every specification once (fails early when the toolchain is missing)."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'specs')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
mods = sorted(f for f in os.listdir(S) if f.endswith('.tla'))
with tempfile.TemporaryDirectory() as d:
    for m in mods:
        shutil.copy(os.path.join(S, m), d)
    bad = 0
    from concurrent.futures import ThreadPoolExecutor
    def one(m):
        p = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', m], cwd=d, capture_output=True, text=True)
        return m, p.returncode, p.stdout[-2000:]
    with ThreadPoolExecutor(8) as ex:
        for m, rc, out in ex.map(one, mods):
            if rc != 0:
                bad += 1
                print(m, out)
    print('%d modules parsed, %d bad' % (len(mods), bad))
    sys.exit(1 if bad else 0)
