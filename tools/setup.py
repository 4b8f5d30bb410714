"""Checks that the tools are there and that the specification parses."""
import os
import subprocess
import sys

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
for m in ('Trace.tla', 'Design.tla', 'Lang.tla', 'Behave.tla'):
    if os.path.exists(os.path.join(SPEC, m)):
        p = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', m], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stdout.write(p.stdout.decode())
            sys.exit(1)
subprocess.check_call(['/opt/venv/bin/python', '-B', '-c', 'import os_urlpattern'])
