#!/usr/bin/env python3
"""setup_cmd: everything the checks need is installed and committed; parse the
specification modules once."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('java', 'gcc', 'make', 'perl', 'bison', 'flex', 'git'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
d = tempfile.mkdtemp()
try:
    for f in os.listdir(os.path.join(V, 'spec')):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(V, 'spec', f), d)
    for f in sorted(os.listdir(d)):
        r = subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tla2sany.SANY', f],
                           cwd=d, capture_output=True, text=True)
        if r.returncode or 'Semantic errors' in r.stdout or 'Parse Error' in r.stdout:
            sys.exit('specification module %s does not parse:\n%s' % (f, r.stdout[-2000:]))
finally:
    shutil.rmtree(d, ignore_errors=True)
print('ok')
