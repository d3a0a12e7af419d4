"""C16: Riemannian gradients and Hessian-by-vector products."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen, tangent
from harness.core import Arg, require, must_raise

CHECK = core.Check('C16', assumptions=[
    'Euclidean gradients and Hessians are derived by hand and computed by NumPy',
    'NumPy SVD of the unfoldings of the point gives the tangent space',
    'points are regular (numerical rank equals the structural one)',
    'the runtime check is used in float64 only: it compares values with '
    'relative accuracy 1e-5'])

TERMS = ('lin', 'square', 'norm2', 'cube', 'prod', 'norm4', 'hadamard',
         'distance', 'expo')


def gen_terms(draw, column):
  names = TERMS + (('bilinear', 'bilinear', 'gram') if column else ())
  k = gen.integer(draw, 1, 3)
  return [dict(f=gen.pick(draw, *names),
               c=gen.pick(draw, 1.0, 0.5, -2.0, 3.0)) for _ in range(k)]


def gen_point(draw):
  kind = gen.pick(draw, 'tensor', 'matrix', 'column')
  if kind == 'column':
    n = gen.modes(draw, 20, 1, 4)
    x = gen.tt(draw, 'matrix', n=n, m=[1] * len(n), bs='no', maxr=3,
               fills=gen.REGULAR)
  else:
    x = gen.tt(draw, kind, bs='no', size=150, maxr=3, fills=gen.REGULAR)
  col = kind == 'column'
  case = dict(x=x, terms=gen_terms(draw, col),
              t=gen.like(draw, x, bs='no', maxr=3, fills=gen.REGULAR),
              s=gen.like(draw, x, bs='no', maxr=2, fills=gen.REGULAR),
              check=gen.flag(draw))
  if col:
    case['a'] = gen.tt(draw, 'matrix', n=x['n'], m=x['n'], bs='no', maxr=2,
                       dt=x['dtype'], fills=gen.REGULAR)
  return case


class Func(object):
  """A function of a TT-object with its dense derivatives."""

  def __init__(self, case):
    self.x = Arg(case['x'])
    self.terms = case['terms']
    self.t, self.s = Arg(case['t']), Arg(case['s'])
    self.a = Arg(case['a']) if 'a' in case else None
    # Keep exponents moderate.
    self.k = 1.0 / (1.0 + abs((self.x.d * self.t.d).sum()))

  def __call__(self, x):
    total = 0.0
    for term in self.terms:
      total = total + term['c'] * self.term(term['f'], x)
    return total

  def term(self, f, x):
    t, s = self.t.tt, self.s.tt
    if f == 'lin':
      return t3f.flat_inner(x, t)
    if f == 'square':
      return 0.5 * t3f.flat_inner(t, x) ** 2
    if f == 'norm2':
      return t3f.frobenius_norm_squared(x, differentiable=True)
    if f == 'cube':
      return tf.reduce_sum(t3f.full(x) ** 3)
    if f == 'prod':
      return t3f.flat_inner(x, t) * t3f.flat_inner(x, s)
    if f == 'norm4':
      return t3f.flat_inner(x, x) ** 2
    if f == 'hadamard':
      return t3f.flat_inner(t3f.multiply(x, t), t3f.multiply(x, s))
    if f == 'distance':
      return t3f.frobenius_norm_squared(x - t, differentiable=True)
    if f == 'expo':
      return tf.exp(t3f.flat_inner(x, t) * self.k)
    if f == 'bilinear':
      return t3f.bilinear_form(self.a.tt, x, x)
    ax = t3f.matmul(self.a.tt, x)
    return t3f.flat_inner(ax, ax)

  def value(self, x):
    """(value, sum of sizes of the terms)."""
    t, s = self.t.d, self.s.d
    v = z = 0.0
    for term in self.terms:
      f, c = term['f'], term['c']
      if f == 'lin':
        w = (x * t).sum()
      elif f == 'square':
        w = 0.5 * (x * t).sum() ** 2
      elif f == 'norm2':
        w = (x * x).sum()
      elif f == 'cube':
        w = (x ** 3).sum()
      elif f == 'prod':
        w = (x * t).sum() * (x * s).sum()
      elif f == 'norm4':
        w = (x * x).sum() ** 2
      elif f == 'hadamard':
        w = (x * x * s * t).sum()
      elif f == 'distance':
        w = ((x - t) ** 2).sum()
      elif f == 'expo':
        w = np.exp((x * t).sum() * self.k)
      elif f == 'bilinear':
        w = (x * (self.a.d @ x)).sum()
      else:
        w = ((self.a.d @ x) ** 2).sum()
      v += c * w
      z += abs(c * w) + self.size(f)
    return v, z

  def size(self, f, power=0):
    """Size of the intermediate values of a term or of its derivatives."""
    x, t, s = self.x.q, self.t.q, self.s.q
    a = self.a.q if self.a else 0.0
    if f == 'expo':
      return 3.0 * (1 + self.k * x * t) * (self.k * t) ** power
    size = {'lin': x * t, 'square': (x * t) ** 2, 'norm2': x * x,
            'cube': x ** 3, 'prod': x * x * t * s, 'norm4': x ** 4,
            'hadamard': x * x * t * s, 'distance': (x + t) ** 2,
            'bilinear': x * x * a, 'gram': (a * x) ** 2}[f]
    return 12 * size / x ** power

  def gradient(self, x):
    t, s = self.t.d, self.s.d
    g = 0.0
    for term in self.terms:
      f, c = term['f'], term['c']
      if f == 'lin':
        w = t
      elif f == 'square':
        w = (x * t).sum() * t
      elif f == 'norm2':
        w = 2 * x
      elif f == 'cube':
        w = 3 * x ** 2
      elif f == 'prod':
        w = (x * t).sum() * s + (x * s).sum() * t
      elif f == 'norm4':
        w = 4 * (x * x).sum() * x
      elif f == 'hadamard':
        w = 2 * x * s * t
      elif f == 'distance':
        w = 2 * (x - t)
      elif f == 'expo':
        w = np.exp((x * t).sum() * self.k) * self.k * t
      elif f == 'bilinear':
        w = (self.a.d + self.a.d.T) @ x
      else:
        w = 2 * self.a.d.T @ (self.a.d @ x)
      g = g + c * w
    return g, sum(abs(u['c']) * self.size(u['f'], 1) for u in self.terms)

  def hessian(self, x, v):
    t, s = self.t.d, self.s.d
    g = np.zeros_like(x)
    for term in self.terms:
      f, c = term['f'], term['c']
      if f == 'lin':
        w = 0 * x
      elif f == 'square':
        w = (v * t).sum() * t
      elif f == 'norm2' or f == 'distance':
        w = 2 * v
      elif f == 'cube':
        w = 6 * x * v
      elif f == 'prod':
        w = (v * t).sum() * s + (v * s).sum() * t
      elif f == 'norm4':
        w = 4 * (x * x).sum() * v + 8 * (x * v).sum() * x
      elif f == 'hadamard':
        w = 2 * v * s * t
      elif f == 'expo':
        w = np.exp((x * t).sum() * self.k) * self.k ** 2 * (v * t).sum() * t
      elif f == 'bilinear':
        w = (self.a.d + self.a.d.T) @ v
      else:
        w = 2 * self.a.d.T @ (self.a.d @ v)
      g = g + c * w
    return g, sum(abs(u['c']) * self.size(u['f'], 2) for u in self.terms)


def prepare(case):
  f = Func(case)
  space = tangent.Space(f.x)
  tol = core.TOL[f.x.dtype] * space.cond
  if not tol < 1e-3 or f.x.q == 0:
    raise core.Skip('the point is not regular')
  value, size = f.value(f.x.d)
  # The runtime check compares two values with relative accuracy 1e-5.
  check = (case['check'] and f.x.dtype == 'float64' and
           abs(value) > 1e-6 * size)
  return f, space, tol, check


def judge(res, want, scale, f, tol, what):
  x = f.x
  max_r = [1] + [2 * r for r in x.r[1:-1]] + [1]
  cores, _ = core.check_structure(res, x.matrix, x.n, x.m, None, x.dtype,
                                  what, max_r=max_r)
  core.close(core.contract(cores, x.matrix, False), want, scale, x.dtype, what,
             tol=tol)
  # The result is an element of the tangent space at the point.
  require(getattr(res, 'projection_on', None) is x.tt, '%s is not marked as an '
          'element of the tangent space', what)


@CHECK.op('gradient', gen_point, quick=400)
def gradient(case):
  f, space, tol, check = prepare(case)
  g, scale = f.gradient(f.x.d)
  res = t3f.gradients(f, f.x.tt, runtime_check=check)
  judge(res, space.project(g), scale, f, tol, 'gradient')


def gen_hessian(draw):
  case = gen_point(draw)
  case['v'] = gen.like(draw, case['x'], bs='no', maxr=3)
  return case


@CHECK.op('hessian', gen_hessian, quick=250)
def hessian(case):
  f, space, tol, check = prepare(case)
  v = Arg(case['v'])
  if all(t['f'] == 'lin' for t in case['terms']):
    raise core.Skip('the Hessian of a linear function is not defined by '
                    'differentiation')
  h, scale = f.hessian(f.x.d, space.project(v.d))
  res = t3f.hessian_vector_product(f, f.x.tt, v.tt, runtime_check=check)
  judge(res, space.project(h), scale * v.q, f, tol, 'hessian')


def compiled(case, hess):
  f, space, tol, check = prepare(case)
  x = f.x
  v = Arg(case['v'])

  @tf.function
  def fn(*cores):
    tt = t3f.TensorTrain(list(cores))
    if hess:
      res = t3f.hessian_vector_product(f, tt, v.tt, runtime_check=check)
    else:
      res = t3f.gradients(f, tt, runtime_check=check)
    return list(res.tt_cores)
  cores = [c.numpy() for c in fn(*[tf.constant(c) for c in x.cores])]
  if hess:
    g, scale = f.hessian(x.d, space.project(v.d))
    scale = scale * v.q
  else:
    g, scale = f.gradient(x.d)
  core.close(core.contract(cores, x.matrix, False), space.project(g), scale,
             x.dtype, 'compiled', tol=tol)


@CHECK.op('gradient-compiled', gen_hessian, quick=16)
def gradient_compiled(case):
  compiled(case, False)


@CHECK.op('hessian-compiled', gen_hessian, quick=12)
def hessian_compiled(case):
  if all(t['f'] == 'lin' for t in case['terms']):
    raise core.Skip('linear')
  compiled(case, True)


def gen_cheat(draw):
  x = gen.tt(draw, bs='no', size=150, maxr=3, mind=2, fills=gen.REGULAR,
             dt='float64')
  return dict(x=x, k=gen.integer(draw, 0, len(x['n']) - 1),
              hess=gen.flag(draw), f=gen.pick(draw, 'one', 'all', 'rank', 'zero'),
              check=gen.pick(draw, True, True, False))


@CHECK.op('representation', gen_cheat, quick=150)
def representation(case):
  """A function of the cores is reported unless the check is off."""
  x = Arg(case['x'])
  values = []

  def cheat(tt):
    if case['f'] == 'all':
      v = tf.add_n([tf.reduce_sum(c ** 2) for c in tt.tt_cores])
    elif case['f'] == 'one':
      # The other cores take part, or their derivatives do not exist.
      v = tf.reduce_sum(tt.tt_cores[case['k']] ** 2) + 0.0 * tf.add_n(
          [tf.reduce_sum(c ** 2) for c in tt.tt_cores])
    elif case['f'] == 'zero':
      # The same value on all representations, though it has no scale.
      v = 0.0 * t3f.flat_inner(tt, tt) ** 2
    else:
      v = (t3f.flat_inner(tt, tt) *
           sum(int(r) for r in tt.get_tt_ranks().as_list()))
    values.append(v)
    return v
  kw = {} if case['check'] else {'runtime_check': False}
  if case['hess']:
    call = lambda: t3f.hessian_vector_product(cheat, x.tt, x.tt, **kw)
  else:
    call = lambda: t3f.gradients(cheat, x.tt, **kw)
  if case['f'] == 'zero':
    res = call()
    core.close(core.contract(core.result_cores(res), x.matrix, False),
               np.zeros_like(x.d), 0.0, x.dtype, 'derivative of zero')
    return
  if not case['check']:
    call()
    return
  cheat(x.tt)
  try:
    call()
  except tf.errors.InvalidArgumentError:
    vs = [float(v) for v in values]
    require(max(vs) - min(vs) > 1e-7 * max(vs), 'rejected though all the '
            'values are %s', vs)
    return
  vs = [float(v) for v in values]
  require(max(vs) - min(vs) <= 1e-3 * max(vs),
          'a function with values %s on two representations of the same tensor '
          'is accepted', vs)
