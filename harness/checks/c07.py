"""C07: elementwise arithmetic."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C07')


def gen_pair(draw, **kw):
  x = gen.tt(draw, size=800, **kw)
  y = gen.like(draw, x, bs=gen.partner_batch(draw, x['bs']))
  return dict(x=x, y=y, form=gen.flag(draw))


def both(case):
  x, y = Arg(case['x']), Arg(case['y'])
  bs = core.bcast([x.bs, y.bs])
  if bs is None:
    return x, y, bs, (x.d, x.a), (y.d, y.a)
  return x, y, bs, core.lift(x, bs), core.lift(y, bs)


def ranks_of(res):
  return [int(r) for r in res.get_tt_ranks()]


def sums(x, y):
  return [1] + [a + b for a, b in zip(x.r[1:-1], y.r[1:-1])] + [1]


@CHECK.op('add', gen_pair, quick=900)
def add(case):
  x, y, bs, (xd, xa), (yd, ya) = both(case)
  res = t3f.add(x.tt, y.tt) if case['form'] else x.tt + y.tt
  core.expect_tt(res, x.ref.like(xd + yd, xa + ya, bs=bs), 'sum',
                 max_r=sums(x, y))


@CHECK.op('sub', gen_pair, quick=600)
def sub(case):
  x, y, bs, (xd, xa), (yd, ya) = both(case)
  core.expect_tt(x.tt - y.tt, x.ref.like(xd - yd, xa + ya, bs=bs),
                 'difference', max_r=sums(x, y))


@CHECK.op('mul', gen_pair, quick=900)
def mul(case):
  x, y, bs, (xd, xa), (yd, ya) = both(case)
  res = t3f.multiply(x.tt, y.tt) if case['form'] else x.tt * y.tt
  core.expect_tt(res, x.ref.like(xd * yd, xa * ya, bs=bs), 'product',
                 max_r=[a * b for a, b in zip(x.r, y.r)])


@CHECK.op('neg', lambda draw: dict(x=gen.tt(draw, size=800)), quick=300)
def neg(case):
  x = Arg(case['x'])
  core.expect_tt(-x.tt, x.ref.like(-x.d, x.a), 'negation', max_r=x.r)


SCALARS = ('python', 'int', 'np64', 'np32', 'npint', 'tensor', 'array0')


def gen_scale(draw):
  x = gen.tt(draw, size=800)
  kind = gen.pick(draw, *SCALARS)
  value = gen.pick(draw, 2.5, -1.0, 0.0, 1.0, -3.75, 0.1, 1e-3, -1e4, 7.0, -2.0,
                   1e-9, -1e-12, -3e9, 1e-6)
  if gen.flag(draw):
    value = gen.integer(draw, -40, 40) / 8.0
  return dict(x=x, c=value, kind=kind, form=gen.pick(draw, 'left', 'right',
                                                     'func'))


@CHECK.op('scale', gen_scale, quick=900)
def scale(case):
  x, c, kind = Arg(case['x']), case['c'], case['kind']
  if kind in ('int', 'npint'):
    c = float(int(c))
  if kind == 'np32':
    c = float(np.float32(c))
  if x.dtype == 'float32':
    c = float(np.float32(c)) if kind != 'np64' else c
  number = {'python': lambda: float(c), 'int': lambda: int(c),
            'np64': lambda: np.float64(c), 'np32': lambda: np.float32(c),
            'npint': lambda: np.int64(c),
            'tensor': lambda: tf.constant(c, dtype=x.dtype),
            'array0': lambda: np.array(c, dtype=x.dtype)}[kind]()
  if case['form'] == 'left' and kind in ('python', 'int'):
    res = number * x.tt
  elif case['form'] == 'func':
    res = t3f.multiply(x.tt, number)
  else:
    res = x.tt * number
  tol = 1e-6 if kind == 'np32' and x.dtype == 'float64' else None
  core.expect_tt(res, x.ref.like(c * x.d, abs(c) * x.a), 'scaled', max_r=x.r,
                 tol=tol)


def gen_expr(draw):
  x = gen.tt(draw, size=300, maxr=2, maxd=4)
  y = gen.like(draw, x, bs=gen.partner_batch(draw, x['bs']), maxr=2)
  return dict(x=x, y=y, a=gen.integer(draw, -5, 5), b=gen.integer(draw, -5, 5))


@CHECK.op('expression', gen_expr, quick=500)
def expression(case):
  """a x * (y - b x) + y: operators compose."""
  x, y, bs, (xd, xa), (yd, ya) = both(case)
  a, b = case['a'], case['b']
  res = a * x.tt * (y.tt - b * x.tt) + y.tt
  ref = x.ref.like(a * xd * (yd - b * xd) + yd,
                   abs(a) * xa * (ya + abs(b) * xa) + ya, bs=bs)
  core.expect_tt(res, ref, 'expression')
