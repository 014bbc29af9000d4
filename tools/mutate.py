"""Development: systematic small changes of /repo, and which checks see them.

mutate.py list OUT.json            all mutants of the non-test sources
mutate.py run IN.json OUT.jsonl [--workers K] [--files a,b] [--sample N/M]

Each mutant is applied to a scratch copy of /repo (never to /repo itself) and
the checks that mention the file are run against that copy until one alarms.
"""
import argparse
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

REPO = '/repo'
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='],
       ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['==']}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==',
        ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'),
       ast.Div: ('/', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'),
       ast.FloorDiv: ('//', '*'), ast.Mod: ('%', '*')}
NAMES = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min',
         'argmin': 'argmax', 'argmax': 'argmin', 'maximum': 'minimum',
         'minimum': 'maximum', 'cos': 'sin', 'sin': 'cos',
         'logical_and': 'logical_or', 'logical_or': 'logical_and',
         'x': 'y', 'y': 'x', 'vel_x': 'vel_y', 'vel_y': 'vel_x',
         'length': 'width', 'width': 'length', 'sum': 'max',
         'sim_trajectory': 'log_trajectory', 'log_trajectory': 'sim_trajectory',
         'zeros_like': 'ones_like', 'ones_like': 'zeros_like', 'zeros': 'ones',
         'ones': 'zeros', 'num_objects': 'num_timesteps', 'is_sdc': 'is_modeled',
         'is_modeled': 'is_valid', 'is_valid': 'is_modeled', 'floor': 'ceil',
         'yaw': 'vel_yaw', 'dir_x': 'dir_y', 'dir_y': 'dir_x', 'abs': 'square'}


class Finder(ast.NodeVisitor):

  def __init__(self, src):
    self.src = src.splitlines(keepends=True)
    self.out = []
    self.fn = []

  def seg(self, a, b):
    """Source between (line, col) a and b; columns are utf-8 offsets."""
    if a[0] != b[0]:
      return None
    return self.src[a[0] - 1][a[1]:b[1]]

  def add(self, node_line, a, b, new, kind):
    old = self.seg(a, b)
    if old is None or old == new:
      return
    self.out.append(dict(line=a[0], col=a[1], end=b[1], old=old, new=new,
                         kind=kind, fn='.'.join(self.fn)))

  def node(self, n):
    return (n.lineno, n.col_offset), (n.end_lineno, n.end_col_offset)

  def visit_FunctionDef(self, n):
    self.fn.append(n.name)
    for s in n.body:
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and (
          isinstance(s.value.value, str)):
        continue
      self.visit(s)
      self.statement(s)
    for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
      self.visit(d)
    self.fn.pop()

  def visit_ClassDef(self, n):
    self.fn.append(n.name)
    for s in n.body:
      if isinstance(s, ast.AnnAssign):
        if s.value is not None:
          self.visit(s.value)
        continue
      if isinstance(s, ast.Expr):
        continue
      self.visit(s)
    self.fn.pop()

  def statement(self, s):
    """Deleting a whole (possibly multi-line) reassignment or a guard."""
    inner = [s]
    for k in ('body', 'orelse'):
      if isinstance(s, (ast.If, ast.For, ast.With)):
        for c in getattr(s, k, []):
          self.statement(c)
    if isinstance(s, (ast.AugAssign,)) or (
        isinstance(s, ast.Assign) and len(s.targets) == 1 and
        isinstance(s.targets[0], ast.Name) and any(
            isinstance(x, ast.Name) and x.id == s.targets[0].id
            for x in ast.walk(s.value))):
      self.out.append(dict(line=s.lineno, col=s.col_offset, end_line=s.end_lineno,
                           end=s.end_col_offset, old='<stmt>', new='pass',
                           kind='delete', fn='.'.join(self.fn)))
    del inner

  def visit_If(self, n):
    if isinstance(n.test, ast.Compare) or isinstance(n.test, (ast.Name, ast.Attribute)):
      a, b = self.node(n.test)
      old = self.seg(a, b)
      if old:
        self.add(n.lineno, a, b, f'not ({old})', 'negate')
    self.generic_visit(n)

  def visit_Raise(self, n):
    pass

  def visit_Assert(self, n):
    pass

  def visit_AnnAssign(self, n):
    if n.value is not None:
      self.visit(n.value)

  def visit_JoinedStr(self, n):
    pass

  def visit_Compare(self, n):
    if len(n.ops) == 1 and type(n.ops[0]) in CMP:
      a = (n.left.end_lineno, n.left.end_col_offset)
      b = (n.comparators[0].lineno, n.comparators[0].col_offset)
      gap = self.seg(a, b)
      op = CMPS[type(n.ops[0])]
      if gap and gap.count(op) == 1:
        i = gap.index(op)
        for new in CMP[type(n.ops[0])]:
          self.add(n.lineno, (a[0], a[1] + i), (a[0], a[1] + i + len(op)), new, 'compare')
    self.generic_visit(n)

  def visit_BinOp(self, n):
    if type(n.op) in BIN:
      old, new = BIN[type(n.op)]
      a = (n.left.end_lineno, n.left.end_col_offset)
      b = (n.right.lineno, n.right.col_offset)
      if a[0] == b[0]:
        gap = self.seg(a, b)
        if gap.count(old) == 1:
          i = gap.index(old)
          self.add(n.lineno, (a[0], a[1] + i), (a[0], a[1] + i + len(old)), new, 'binop')
      else:  # operator at a line break: find it on either line
        for ln in range(a[0], b[0] + 1):
          lo = a[1] if ln == a[0] else 0
          hi = b[1] if ln == b[0] else len(self.src[ln - 1])
          gap = self.src[ln - 1][lo:hi]
          if gap.count(old) == 1:
            i = lo + gap.index(old)
            self.add(n.lineno, (ln, i), (ln, i + len(old)), new, 'binop')
            break
    self.generic_visit(n)

  def visit_UnaryOp(self, n):
    a, b = self.node(n)
    if isinstance(n.op, (ast.Invert, ast.USub)) and not isinstance(n.operand, ast.Constant):
      self.add(n.lineno, a, (a[0], a[1] + 1), '', 'unary')
    if isinstance(n.op, ast.Not):
      self.add(n.lineno, a, (a[0], a[1] + 4), '', 'unary')
    self.generic_visit(n)

  def visit_Constant(self, n):
    a, b = self.node(n)
    v = n.value
    if v is True or v is False:
      self.add(n.lineno, a, b, str(not v), 'const')
    elif isinstance(v, int):
      self.add(n.lineno, a, b, str(v + 1), 'const')
    elif isinstance(v, float):
      self.add(n.lineno, a, b, str(v * 1.25 if v else 1.0), 'const')

  def visit_Name(self, n):
    self.swap(n, n.id, self.node(n))

  def visit_Attribute(self, n):
    e = (n.end_lineno, n.end_col_offset)
    self.swap(n, n.attr, ((e[0], e[1] - len(n.attr)), e))
    self.generic_visit(n)

  def swap(self, n, name, pos):
    if name in NAMES and isinstance(n.ctx, ast.Load):
      self.add(n.lineno, pos[0], pos[1], NAMES[name], 'name')

  def visit_Call(self, n):
    f = n.func
    name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
    if name in ('named_scope', 'TypeVar', 'print', 'warning', 'info', 'isinstance'):
      return
    if name.startswith('assert_'):
      return
    if name == 'where' and len(n.args) == 3:
      a1, b1 = self.node(n.args[1])
      a2, b2 = self.node(n.args[2])
      if a1[0] == b1[0] == a2[0] == b2[0]:
        x, y = self.seg(a1, b1), self.seg(a2, b2)
        self.add(n.lineno, a1, b2, f'{y}{self.seg(b1, a2)}{x}', 'swap')
      else:
        a, b = self.node(n.args[0])
        old = self.seg(a, b)
        if old:
          self.add(n.lineno, a, b, f'jnp.logical_not({old})', 'swap')
    for k in n.keywords:
      if k.arg and isinstance(k.value, ast.Name) is False and (
          isinstance(k.value, (ast.Attribute, ast.Call))) and k.arg in (
              'valid', 'timestep', 'x', 'y', 'yaw', 'vel_x', 'vel_y'):
        pass
    self.generic_visit(n)


def sources():
  for f in sorted(glob.glob(REPO + '/waymax/**/*.py', recursive=True)):
    b = os.path.basename(f)
    if b.endswith('_test.py') or b in ('__init__.py', 'test_utils.py') or (
        'internal' in b):
      continue
    yield f


def listing(out):
  all_ = []
  for f in sources():
    src = open(f).read()
    fd = Finder(src)
    fd.visit(ast.parse(src))
    seen = set()
    for m in fd.out:
      key = (m['line'], m['col'], m['end'], m['new'])
      if key in seen:
        continue
      seen.add(key)
      m['file'] = os.path.relpath(f, REPO)
      try:
        ast.parse(apply_to(src, m))
      except SyntaxError:
        continue
      all_.append(m)
  for i, m in enumerate(all_):
    m['id'] = i
  json.dump(all_, open(out, 'w'), indent=0)
  by = {}
  for m in all_:
    by[m['file']] = by.get(m['file'], 0) + 1
  for k, v in by.items():
    print(v, k)
  print(len(all_))


def apply_to(src, m):
  lines = src.splitlines(keepends=True)
  i = m['line'] - 1
  j = m.get('end_line', m['line']) - 1
  text = lines[i][:m['col']] + m['new'] + lines[j][m['end']:]
  return ''.join(lines[:i] + [text] + lines[j + 1:])


ORDER = {  # checks per file, the most telling first
    'agents/actor_core.py': 'C13 C10 C24', 'agents/agent_builder.py': 'C13 C10 C25',
    'agents/constant_speed.py': 'C13', 'agents/expert.py': 'C13 C12 C30',
    'agents/sim_agent.py': 'C13 C14 C10', 'agents/waypoint_following_agent.py': 'C14 C35',
    'config.py': 'C19 C10 C14 C22 C08 C18 C28 C27 C01 C25 C26 C24',
    'dataloader/dataloader_utils.py': 'C27', 'dataloader/womd_dataloader.py': 'C27 C28',
    'dataloader/womd_factories.py': 'C28 C29', 'dataloader/womd_utils.py': 'C29 C28 C27',
    'datatypes/action.py': 'C31 C03 C10 C13', 'datatypes/array.py': 'C31',
    'datatypes/constant.py': 'C05 C06 C14 C31', 'datatypes/object_state.py': 'C31 C15 C01 C28 C16 C23 C29',
    'datatypes/observation.py': 'C21 C23 C22 C32 C30',
    'datatypes/operations.py': 'C31 C02 C21 C01 C17 C18',
    'datatypes/roadgraph.py': 'C22 C16 C31 C28', 'datatypes/route.py': 'C31 C17 C28 C33',
    'datatypes/simulator_state.py': 'C31 C01 C28 C24 C03',
    'datatypes/traffic_lights.py': 'C31 C28 C21 C33',
    'dynamics/abstract_dynamics.py': 'C03 C04 C02 C10', 'dynamics/bicycle_model.py': 'C06 C07 C18',
    'dynamics/delta.py': 'C05 C07', 'dynamics/discretizer.py': 'C08 C09',
    'dynamics/state_dynamics.py': 'C05 C07 C03', 'env/abstract_environment.py': 'C11 C24',
    'env/base_environment.py': 'C01 C03 C11 C20 C02 C24',
    'env/planning_agent_environment.py': 'C10 C11 C01 C20 C25',
    'env/rollout.py': 'C24', 'env/typedefs.py': 'C24',
    'env/wrappers/brax_wrapper.py': 'C26', 'env/wrappers/dm_env_wrapper.py': 'C25',
    'metrics/abstract_metric.py': 'C19 C20 C15', 'metrics/comfort.py': 'C18',
    'metrics/imitation.py': 'C15', 'metrics/metric_factory.py': 'C19 C20',
    'metrics/overlap.py': 'C15', 'metrics/roadgraph.py': 'C16', 'metrics/route.py': 'C17',
    'rewards/abstract_reward_function.py': 'C20', 'rewards/linear_combination_reward.py': 'C20',
    'utils/geometry.py': 'C32 C15 C16', 'visualization/color.py': 'C33',
    'visualization/utils.py': 'C33', 'visualization/viz.py': 'C33'}


def main():
  if sys.argv[1] == 'list':
    return listing(sys.argv[2])
  ap = argparse.ArgumentParser()
  ap.add_argument('cmd')
  ap.add_argument('inp')
  ap.add_argument('out')
  ap.add_argument('--workers', type=int, default=4)
  ap.add_argument('--files', default='')
  ap.add_argument('--sample', default='1/1')
  ap.add_argument('--checks', default='')
  ap.add_argument('--ids', default='')
  a = ap.parse_args()
  muts = json.load(open(a.inp))
  if a.files:
    muts = [m for m in muts if any(x in m['file'] for x in a.files.split(','))]
  if a.ids:
    want = {int(x) for x in a.ids.split(',')}
    muts = [m for m in muts if m['id'] in want]
  n, d = map(int, a.sample.split('/'))
  random.Random(7).shuffle(muts)
  muts = muts[:len(muts) * n // d] if d > 1 else muts
  done = set()
  if os.path.exists(a.out):
    done = {json.loads(l)['id'] for l in open(a.out)}
  muts = [m for m in muts if m['id'] not in done]
  print(len(muts), 'to run', flush=True)
  lock = threading.Lock()
  it = iter(muts)

  def worker(k):
    base = f'/tmp/mut/{k}'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(['cp', '-a', REPO, base + '/repo'])
    os.makedirs(base + '/verif')
    for x in ('checks', 'wmc', 'run.sh', 'known_findings.jsonl', 'tools'):
      subprocess.check_call(['cp', '-a', '/verif/' + x, base + '/verif/' + x])
    while True:
      with lock:
        m = next(it, None)
      if m is None:
        break
      f = os.path.join(base, 'repo', m['file'])
      src = open(f).read()
      open(f, 'w').write(apply_to(src, m))
      res, t0, tail = 'SURVIVED', time.time(), ''
      checks = a.checks.split(',') if a.checks else ORDER[m['file'][7:]].split()
      try:
        for c in checks:
          env = dict(os.environ, WMC_REPO=base + '/repo', WMC_FAST='1',
                     WMC_WORKERS='2', VERIF_SEED='1')
          try:
            r = subprocess.run(['bash', base + '/verif/run.sh', c, 'quick'],
                               env=env, capture_output=True, text=True, timeout=1200)
          except subprocess.TimeoutExpired:
            res = f'{c}:timeout'
            break
          if r.returncode:
            res = f'{c}:{r.returncode}'
            tail = '\n'.join(r.stdout.splitlines()[-3:])[-400:]
            break
      finally:
        open(f, 'w').write(src)
      with lock, open(a.out, 'a') as o:
        o.write(json.dumps(dict(m, res=res, secs=round(time.time() - t0), tail=tail)) + '\n')
    shutil.rmtree(base, ignore_errors=True)

  ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
  for t in ts:
    t.start()
  for t in ts:
    t.join()


if __name__ == '__main__':
  main()
