"""C25: random programs of TT-operations against a dense model."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import require

CHECK = core.Check('C25', rule=(
    'A case is a program; it counts if it applies at least three operations '
    'and one of the objects has at least two cores; distinct by JSON.'),
    nontrivial=lambda c: len(c['steps']) >= 3 and
    any(len(s['n']) >= 2 for s in core.specs_in(c)),
    assumptions=['dense NumPy programs in float64 are taken as the truth',
                 'tolerance 1e-9 (float64) / 2e-4 (float32) relative to the '
                 'product of norms of the cores of all operands'])

TOL = {'float64': 1e-9, 'float32': 2e-4}
FILLS = ('normal', 'normal', 'int', 'pos', 'sparse', 'deficient')
MAXRANK = 24


class Type(object):
  """What the generator knows about an object: enough to stay well-typed."""

  def __init__(self, n, m, bs, dtype, rank, degree):
    self.n, self.m, self.bs, self.dtype = n, m, bs, dtype
    self.rank, self.degree = rank, degree

  def but(self, **kw):
    res = Type(self.n, self.m, self.bs, self.dtype, self.rank, self.degree)
    for k, v in kw.items():
      setattr(res, k, v)
    return res

  def size(self):
    return core.prod(self.n) * core.prod(self.m or [1]) * (self.bs or 1)


def broadcastable(a, b):
  return a is None or b is None or a == b or 1 in (a, b)


def gen_program(draw, length):
  kind = gen.pick(draw, 'tensor', 'matrix', 'square')
  if kind == 'tensor':
    n = gen.modes(draw, size=60, maxd=4)
    m = None
  else:
    n, m = gen.matrix_modes(draw, size=60, maxd=3, square=kind == 'square')
  dtype = gen.dtype(draw)
  pool, steps = [], []

  def emit(type_, **step):
    pool.append(type_)
    steps.append(step)

  def fresh():
    how = gen.pick(draw, 'cores', 'cores', 'cores', 'dense', 'constant')
    base = gen.pick(draw, *pool) if pool else None
    cn, cm = (n, m) if base is None else (base.n, base.m)
    if base is not None and cm is not None and gen.flag(draw):
      cn, cm = cm, cn
    if how == 'cores':
      spec = gen.tt(draw, kind='tensor' if cm is None else 'matrix', n=cn, m=cm,
                    dt=dtype, maxr=3, fills=FILLS)
      emit(Type(cn, cm, spec['bs'], dtype, max(spec['r']), 1), op='cores',
           spec=spec)
    elif how == 'dense':
      emit(Type(cn, cm, None, dtype, 8, 1), op='dense', n=cn, m=cm,
           dtype=dtype, seed=gen.seed(draw))
    else:
      what = gen.pick(draw, 'ones', 'zeros', 'eye')
      if what == 'eye' and cm != cn:
        what = 'ones'
      emit(Type(cn, cm, None, dtype, 1, 1), op='constant', n=cn, m=cm,
           dtype=dtype, what=what)

  def unary():
    i = gen.integer(draw, 0, len(pool) - 1)
    t = pool[i]
    names = ['neg', 'scale', 'scale', 'round', 'round', 'orthogonalize',
             'renormalize', 'expand', 'rebuild', 'again', 'shared']
    if t.m is not None:
      names += ['transpose', 'transpose']
    if t.bs is None:
      names += ['orthogonalize-left', 'ones_like', 'zeros_like', 'project']
    else:
      names += ['element', 'part', 'along', 'reduce', 'reduce-weighted']
    if t.bs == 1:
      names += ['squeeze', 'squeeze']
    if t.m is None:
      names += ['index', 'index']
    name = gen.pick(draw, *names)
    step = dict(op=name, x=i)
    res = t
    if name == 'scale':
      step.update(c=gen.pick(draw, 2.0, -0.5, 3, 0.0, 1e-2),
                  how=gen.pick(draw, 'left', 'right', 'tensor'))
    elif name == 'shared':
      step.update(k=gen.integer(draw, 0, len(t.n) - 1),
                  c=gen.pick(draw, 2.0, -1.0, 0.5))
    elif name == 'transpose':
      res = t.but(n=t.m, m=t.n)
    elif name == 'expand':
      res = t if t.bs is not None else t.but(bs=1)
    elif name == 'squeeze':
      res = t.but(bs=None)
    elif name == 'element':
      step.update(i=gen.integer(draw, 0, t.bs - 1))
      res = t.but(bs=None)
    elif name == 'part':
      lo = gen.integer(draw, 0, t.bs - 1)
      hi = gen.integer(draw, lo + 1, t.bs)
      step.update(lo=lo, hi=hi)
      res = t.but(bs=hi - lo)
    elif name == 'along':
      step.update(seed=gen.seed(draw))
      res = t.but(degree=t.degree + 1)
    elif name.startswith('reduce'):
      if t.rank * t.bs > 4 * MAXRANK:
        return
      step.update(seed=gen.seed(draw))
      res = t.but(bs=None, rank=t.rank * t.bs)
    elif name == 'index':
      idx, sizes = [], []
      if t.bs is not None:
        if gen.flag(draw):
          idx.append(gen.integer(draw, 0, t.bs - 1))
          bs = None
        else:
          lo = gen.integer(draw, 0, t.bs - 1)
          hi = gen.integer(draw, lo + 1, t.bs)
          idx.append([lo, hi])
          bs = hi - lo
      else:
        bs = None
      keep = gen.integer(draw, 0, len(t.n) - 1)
      for k, size in enumerate(t.n):
        if k != keep and gen.flag(draw):
          idx.append(gen.integer(draw, -size, size - 1))
        else:
          lo = gen.integer(draw, 0, size - 1)
          hi = gen.integer(draw, lo + 1, size)
          idx.append([lo, hi])
          sizes.append(hi - lo)
      step.update(idx=idx)
      res = t.but(n=sizes, bs=bs)
    elif name == 'project':
      res = t.but(rank=2 * t.rank)
      if res.rank > MAXRANK:
        return
    emit(res, **step)
    if name == 'shared' and 2 * t.rank <= MAXRANK:
      pair = gen.pick(draw, (i, len(pool) - 1), (len(pool) - 1, i))
      emit(t.but(rank=2 * t.rank), op=gen.pick(draw, 'add', 'sub', 'sub'),
           x=pair[0], y=pair[1])

  def cast():
    i = gen.integer(draw, 0, len(pool) - 1)
    t = pool[i]
    to = gen.pick(draw, 'float32', 'float64')
    emit(t.but(dtype=to), op='cast', x=i, to=to)

  def binary():
    name = gen.pick(draw, 'add', 'add', 'sub', 'mul', 'mul', 'matmul', 'matmul',
                    'concat', 'add_n')
    i = gen.integer(draw, 0, len(pool) - 1)
    t = pool[i]
    ok = []
    for j, u in enumerate(pool):
      if u.dtype != t.dtype or not broadcastable(t.bs, u.bs):
        if name != 'concat':
          continue
      if name == 'matmul':
        good = t.m is not None and u.m is not None and t.m == u.n
      else:
        good = t.n == u.n and t.m == u.m
      if name in ('add', 'sub', 'add_n'):
        good = good and t.rank + u.rank <= MAXRANK
      elif name != 'concat':
        good = good and t.rank * u.rank <= MAXRANK and \
            t.degree + u.degree <= 5
      if name == 'add_n':
        good = good and t.bs == u.bs
      if name == 'concat':
        # Concatenation needs equal TT-ranks: only of parts of one object.
        good = j == i and t.bs is not None and t.bs <= 4
      if good:
        ok.append(j)
    if not ok:
      return
    j = gen.pick(draw, *ok)
    u = pool[j]
    bs = core.bcast([t.bs, u.bs])
    if name in ('add', 'sub', 'add_n'):
      res = t.but(bs=bs, rank=t.rank + u.rank, degree=max(t.degree, u.degree))
    elif name == 'concat':
      res = t.but(bs=2 * t.bs)
    else:
      res = t.but(bs=bs, rank=t.rank * u.rank, degree=t.degree + u.degree)
      if name == 'matmul':
        res.m = u.m
    if res.size() > 500:
      return
    emit(res, op=name, x=i, y=j)

  fresh()
  fresh()
  for _ in range(length):
    what = gen.pick(draw, 'unary', 'unary', 'unary', 'binary', 'binary',
                    'binary', 'binary', 'fresh', 'cast')
    {'unary': unary, 'binary': binary, 'fresh': fresh, 'cast': cast}[what]()
  return dict(steps=steps, seed=gen.seed(draw))


class Value(object):
  """A TT-object with its dense model."""

  def __init__(self, tt, d, n, m, bs, dtype, scale, soft=None):
    self.tt, self.d, self.n, self.m, self.bs = tt, d, n, m, bs
    self.dtype, self.scale = dtype, scale
    # float32 if any ancestor was: its errors stay.
    self.soft = soft or dtype

  def but(self, **kw):
    res = Value(self.tt, self.d, self.n, self.m, self.bs, self.dtype,
                self.scale, self.soft)
    for k, v in kw.items():
      setattr(res, k, v)
    return res


def check_value(v, what):
  cores, _ = core.check_structure(v.tt, v.m is not None, v.n, v.m, v.bs,
                                  v.dtype, what)
  got = core.contract(cores, v.m is not None, v.bs is not None)
  norms = 1.0
  for c in cores:
    axes = tuple(range(1, c.ndim)) if v.bs is not None else None
    norms = norms * np.sqrt((c.astype(np.float64) ** 2).sum(axis=axes))
  v.scale = max(v.scale, float(np.max(norms)))
  core.close(got, v.d, v.scale, v.soft, what, tol=TOL[v.soft])
  return [c.tobytes() for c in cores]


def dense_shape(n, m):
  return list(n) if m is None else [core.prod(n), core.prod(m)]


def step_value(step, pool):
  """Executes a step: the operation of the library and of the model."""
  op = step['op']
  if op == 'cores':
    a = core.Arg(step['spec'])
    return Value(a.tt, a.d, a.n, a.m, a.bs, a.dtype, float(np.max(a.q)) + 1)
  if op == 'dense':
    n, m = step['n'], step['m']
    d = np.random.RandomState(step['seed']).randn(*dense_shape(n, m))
    d = d.astype(step['dtype'])
    tt = t3f.to_tt_tensor(d, max_tt_rank=1000) if m is None else \
        t3f.to_tt_matrix(d, [n, m], max_tt_rank=1000)
    return Value(tt, d.astype(np.float64), n, m, None, step['dtype'],
                 np.linalg.norm(d) + 1)
  if op == 'constant':
    n, m, dt = step['n'], step['m'], tf.as_dtype(step['dtype'])
    what = step['what']
    shape = dense_shape(n, m)
    if what == 'eye':
      tt, d = t3f.eye(n, dtype=dt), np.eye(shape[0])
    elif what == 'ones':
      tt = t3f.tensor_ones(n, dt) if m is None else t3f.matrix_ones([n, m], dt)
      d = np.ones(shape)
    else:
      tt = t3f.tensor_zeros(n, dt) if m is None else t3f.matrix_zeros([n, m],
                                                                      dt)
      d = np.zeros(shape)
    return Value(tt, d, n, m, None, step['dtype'], np.linalg.norm(d) + 1)
  x = pool[step['x']]
  tt = x.tt
  if op == 'neg':
    return x.but(tt=-tt, d=-x.d)
  if op == 'scale':
    c = step['c']
    new = {'left': lambda: c * tt, 'right': lambda: tt * c,
           'tensor': lambda: t3f.multiply(tt, tf.constant(c, tt.dtype))}
    return x.but(tt=new[step['how']](), d=c * x.d,
                 scale=x.scale * max(1, abs(c)))
  if op == 'round':
    return x.but(tt=t3f.round(tt, max_tt_rank=10000))
  if op == 'orthogonalize':
    return x.but(tt=t3f.orthogonalize_tt_cores(tt))
  if op == 'orthogonalize-left':
    return x.but(tt=t3f.orthogonalize_tt_cores(tt, left_to_right=False))
  if op == 'renormalize':
    return x.but(tt=t3f.renormalize_tt_cores(tt))
  if op == 'rebuild':
    return x.but(tt=type(tt)(tt.tt_cores, tt.get_raw_shape(),
                             tt.get_tt_ranks()))
  if op == 'shared':
    # Another object which has all but one of the cores of this one.
    cores = list(tt.tt_cores)
    cores[step['k']] = cores[step['k']] * tf.constant(step['c'], tt.dtype)
    return x.but(tt=type(tt)(cores), d=step['c'] * x.d,
                 scale=x.scale * max(1, abs(step['c'])))
  if op == 'again':
    dense = t3f.full(tt)
    d = core.to_np(dense)
    core.close(d, x.d, x.scale, x.soft, 'full', tol=TOL[x.soft])
    return x
  if op == 'transpose':
    return x.but(tt=t3f.transpose(tt), d=np.swapaxes(x.d, -1, -2), n=x.m, m=x.n)
  if op == 'ones_like':
    return x.but(tt=t3f.ones_like(tt), d=np.ones_like(x.d), soft=x.dtype)
  if op == 'zeros_like':
    return x.but(tt=t3f.zeros_like(tt), d=np.zeros_like(x.d), soft=x.dtype)
  if op == 'project':
    # A tensor belongs to its own tangent space.
    return x.but(tt=t3f.project(tt, tt))
  if op == 'expand':
    if x.bs is not None:
      return x.but(tt=t3f.expand_batch_dim(tt))
    return x.but(tt=t3f.expand_batch_dim(tt), d=x.d[None], bs=1)
  if op == 'squeeze':
    return x.but(tt=t3f.squeeze_batch_dim(tt), d=x.d[0], bs=None)
  if op == 'element':
    return x.but(tt=tt[step['i']], d=x.d[step['i']], bs=None)
  if op == 'part':
    s = slice(step['lo'], step['hi'])
    return x.but(tt=tt[s], d=x.d[s], bs=step['hi'] - step['lo'])
  if op == 'along':
    w = np.random.RandomState(step['seed']).randn(x.bs).astype(x.dtype)
    d = x.d * w.astype(np.float64).reshape([-1] + [1] * (x.d.ndim - 1))
    return x.but(tt=t3f.multiply_along_batch_dim(tt, w), d=d,
                 scale=x.scale * max(1, np.abs(w).max()))
  if op == 'reduce':
    return x.but(tt=t3f.approximate.reduce_sum_batch(tt, 10000),
                 d=x.d.sum(0), bs=None, scale=x.scale * x.bs)
  if op == 'reduce-weighted':
    w = np.random.RandomState(step['seed']).randn(x.bs).astype(x.dtype)
    return x.but(tt=t3f.approximate.reduce_sum_batch(tt, 10000, w),
                 d=np.tensordot(w.astype(np.float64), x.d, 1), bs=None,
                 scale=x.scale * (1 + np.abs(w).sum()))
  if op == 'index':
    idx = tuple(slice(*i) if isinstance(i, list) else i for i in step['idx'])
    d = x.d[idx]
    sizes = list(d.shape)
    bs = x.bs
    if x.bs is not None:
      bs = sizes.pop(0) if isinstance(step['idx'][0], list) else None
    return x.but(tt=tt[idx], d=d, n=sizes, bs=bs)
  if op == 'cast':
    soft = 'float32' if step['to'] == 'float32' else x.soft
    return x.but(tt=t3f.cast(tt, tf.as_dtype(step['to'])), dtype=step['to'],
                 soft=soft)
  y = pool[step['y']]
  soft = 'float32' if 'float32' in (x.soft, y.soft) else 'float64'
  bs = core.bcast([x.bs, y.bs])
  a, b = x.d, y.d
  if bs is not None:
    a = a if x.bs is not None else a[None]
    b = b if y.bs is not None else b[None]
  new = x.but(bs=bs, soft=soft)
  if op == 'add':
    return new.but(tt=tt + y.tt, d=a + b, scale=x.scale + y.scale)
  if op == 'sub':
    return new.but(tt=tt - y.tt, d=a - b, scale=x.scale + y.scale)
  if op == 'mul':
    return new.but(tt=tt * y.tt, d=a * b, scale=x.scale * y.scale)
  if op == 'matmul':
    return new.but(tt=t3f.matmul(tt, y.tt), d=np.matmul(a, b), m=y.m,
                   scale=x.scale * y.scale)
  if op == 'add_n':
    return new.but(tt=t3f.approximate.add_n([tt, y.tt], 10000), d=a + b,
                   scale=x.scale + y.scale)
  if op == 'concat':
    return new.but(tt=t3f.concat_along_batch_dim([tt, y.tt]),
                   d=np.concatenate([a, b]), bs=2 * x.bs)
  raise AssertionError(op)


def run(case):
  pool, saved = [], []
  for k, step in enumerate(case['steps']):
    v = step_value(step, pool)
    what = 'step %d (%s)' % (k, step['op'])
    require(core.is_tt(v.tt), '%s returned %s', what, type(v.tt))
    saved.append(check_value(v, what))
    pool.append(v)
  # Nothing computed later has changed an earlier object.
  for k, v in enumerate(pool):
    require(check_value(v, 'result of step %d at the end' % k) == saved[k],
            'cores of step %d changed later', k)
  observe(pool[-1], pool)


def observe(x, pool):
  """Scalar functions and the dense form of the last object."""
  tol = TOL[x.soft]
  full = t3f.full(x.tt)
  require(core.to_np(full).dtype == np.dtype(x.dtype), 'dtype of full')
  core.close(core.to_np(full), x.d, x.scale, x.soft, 'full', tol)
  flat = x.d.reshape(1 if x.bs is None else x.bs, -1)
  want = (flat ** 2).sum(1)
  want = want[0] if x.bs is None else want
  for diff in (False, True):
    got = core.to_np(t3f.frobenius_norm_squared(x.tt, differentiable=diff))
    core.close(got, want, x.scale ** 2, x.soft, 'frobenius_norm_squared', tol)
  for y in pool:
    if y.n == x.n and y.m == x.m and y.dtype == x.dtype and \
        broadcastable(y.bs, x.bs):
      soft = 'float32' if 'float32' in (x.soft, y.soft) else 'float64'
      flat2 = y.d.reshape(1 if y.bs is None else y.bs, -1)
      want = (flat * flat2).sum(1)
      want = want[0] if x.bs is None and y.bs is None else want
      core.close(core.to_np(t3f.flat_inner(x.tt, y.tt)), want,
                 x.scale * y.scale, soft, 'flat_inner', TOL[soft])
      break
  if x.bs is not None:
    core.close(core.to_np(t3f.gram_matrix(x.tt)), flat @ flat.T, x.scale ** 2,
               x.soft, 'gram_matrix', tol)
  if x.m is None:
    shape = x.d.shape
    rng = np.random.RandomState(1)
    idx = np.stack([rng.randint(0, s, size=3) for s in shape], -1)
    core.close(core.to_np(t3f.gather_nd(x.tt, idx)), x.d[tuple(idx.T)],
               x.scale, x.soft, 'gather_nd', tol)


@CHECK.op('short', lambda draw: gen_program(draw, gen.integer(draw, 1, 4)),
          quick=700)
def short(case):
  run(case)


@CHECK.op('long', lambda draw: gen_program(draw, gen.integer(draw, 5, 14)),
          quick=500)
def long_(case):
  run(case)
