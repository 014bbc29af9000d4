"""Development tool: makes planted bugs from a list and confirms them.

python3 tools/plant.py BUGS.py [id ...]   (BUGS.py: list BUGS of dicts with
id, property, file, edits [(old, new)], needs, breaks, demo)

Works on a scratch copy of /repo only.  Keeps a bug in seeded/<id>/ when the
demo passes on the clean copy, fails with the patch, and the stable tests pass.
"""
import json, os, pathlib, shutil, subprocess, sys
import xml.etree.ElementTree as ET

VERIF = pathlib.Path(__file__).resolve().parent.parent
WORK = pathlib.Path('/tmp/seed/repo')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=WORK, text=True,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def clean():
  sh('git checkout -q -- . ')


def tests():
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='2', MPLBACKEND='Agg')
  x = '/tmp/seed/junit.xml'
  sh([PY, '-m', 'pytest', '-q', '--tb=short', '-n', '8', '-p', 'no:cacheprovider',
      '--timeout=300', '--continue-on-collection-errors', '-o',
      'python_files=*_test.py', '-o', 'junit_family=xunit2', f'--junitxml={x}',
      'waymax'], env=env)
  ok = set()
  for c in ET.parse(x).getroot().iter('testcase'):
    if all(c.find(k) is None for k in ('failure', 'error', 'skipped')):
      ok.add(c.get('classname') + '::' + c.get('name'))
  stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
  return stable - ok


def main():
  ns = {}
  exec(open(sys.argv[1]).read(), ns)
  only = sys.argv[2:]
  if not WORK.exists():
    WORK.parent.mkdir(parents=True, exist_ok=True)
    shutil.copytree('/repo', WORK, symlinks=True)
  head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
  clean()
  sh(f'git fetch -q /repo HEAD && git checkout -q {head}')
  for b in ns['BUGS']:
    if only and b['id'] not in only:
      continue
    d = VERIF / 'seeded' / b['id']
    tmp = pathlib.Path('/tmp/seed/new') / b['id']
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir(parents=True)
    (tmp / 'demo.sh').write_text(DEMO)
    (tmp / 'demo.py').write_text(b['demo'].lstrip('\n'))
    shutil.copy(VERIF / 'wmc' / 'scenes.py', tmp / 'scn.py')
    clean()
    r = sh(['bash', str(tmp / 'demo.sh')])
    if r.returncode:
      print(b['id'], 'DEMO FAILS ON CLEAN\n', r.stdout[-1500:]); continue
    edits = b['edits']
    bad = False
    for e in edits:
      f, old, new = e if len(e) == 3 else (b['file'], *e)
      p = WORK / f
      s = p.read_text()
      if s.count(old) != 1:
        print(b['id'], 'text occurs', s.count(old), 'times:', old); bad = True; break
      p.write_text(s.replace(old, new))
    if bad:
      clean(); continue
    (tmp / 'patch.diff').write_text(sh('git diff').stdout)
    (tmp / 'meta.json').write_text(json.dumps(
        dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), indent=1) + '\n')
    r = sh(['bash', str(tmp / 'demo.sh')])
    if r.returncode == 0:
      print(b['id'], 'DEMO PASSES WITH BUG'); clean(); continue
    last = r.stdout.strip().splitlines()[-1:] 
    lost = tests()
    clean()
    if lost:
      print(b['id'], 'CAUGHT BY TESTS', sorted(lost)[:2]); continue
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    print(b['id'], 'kept;', last, flush=True)


main()
