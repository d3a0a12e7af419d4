"""C26: calls with arguments that do not fit together are rejected."""
import copy
import numpy as np
import tensorflow as tf
import t3f
from harness import catalog, core, gen
from harness.core import must_raise, require

CHECK = core.Check('C26', rule=(
    'A case is a valid call with one fault put into it; the valid call is '
    'executed first and has to be accepted. Distinct by JSON.'),
    nontrivial=lambda c: True,
    assumptions=['a call is invalid if it has no meaning for dense arrays or '
                 'the documentation forbids it'])

# All TT-arguments have the same shape.
SAME = ('add', 'sub', 'mul', 'flat_inner', 'concat', 'pairwise', 'project',
        'project_sum', 'pairwise-projected', 'add_n-projected',
        'approximate-add_n', 'deltas', 'gradients', 'hessian')
# Arguments whose rows ('n') or columns ('m') are contracted with others.
LINKED = {'matmul': (('x', 'm'), ('y', 'n')),
          'bilinear_form': (('A', 'n'), ('A', 'm'), ('x', 'n'), ('y', 'n'),
                            ('x', 'm'), ('y', 'm')),
          'bilinear_form_two_mat': (('A', 'n'), ('A', 'm'), ('B', 'n'),
                                    ('B', 'm'), ('x', 'n'), ('y', 'n'),
                                    ('x', 'm'), ('y', 'm')),
          'pairwise-matrix': (('A', 'n'), ('A', 'm'), ('x', 'n'), ('y', 'n'),
                              ('x', 'm'), ('y', 'm')),
          'project_matmul': (('A', 'n'), ('A', 'm'), ('x', 'n'), ('x', 'm'),
                             ('y', 'n'), ('y', 'm'))}
BROADCAST = ('add', 'sub', 'mul', 'flat_inner', 'matmul', 'approximate-add_n')
# Documented to raise ValueError.
DOCUMENTED = ('matmul', 'flat_inner', 'bilinear_form', 'bilinear_form_two_mat',
              'add', 'sub', 'mul')


def kinds(case):
  return ValueError if case['f'] in DOCUMENTED else Exception


def valid(case):
  """The call before the fault."""
  tts, arrays = catalog.arguments(case)
  catalog.call(case, {k: x.tt for k, x in tts.items()}, arrays)


def run(case, kinds_=Exception):
  tts, arrays = catalog.arguments(case['bad'])
  objs = {k: x.tt for k, x in tts.items()}
  must_raise(lambda: show(catalog.call(case['bad'], objs, arrays)), kinds_,
             '%s with a wrong %s' % (case['f'], case['fault']))


def show(res):
  """Results with lazily raised exceptions."""
  return [core.result_cores(r) if core.is_tt(r) else core.to_np(r)
          for r in catalog.flatten(res)]


def start(draw, names):
  case = catalog.gen_case(draw, names)
  if case['f'] in ('gradients', 'hessian'):
    case['p']['check'] = False
  return case, copy.deepcopy(case)


# ------------------------------------------------------------------ mode sizes


def gen_modes(draw):
  case, bad = start(draw, SAME + tuple(LINKED))
  f = case['f']
  if f in LINKED:
    key, axis = gen.pick(draw, *LINKED[f])
  else:
    key = gen.pick(draw, *sorted(case['tt']))
    axis = 'n' if case['tt'][key]['m'] is None else gen.pick(draw, 'n', 'm')
  sizes = bad['tt'][key][axis]
  k = gen.integer(draw, 0, len(sizes) - 1)
  old = sizes[k]
  # Sizes of 1 are broadcast by TensorFlow.
  sizes[k] = gen.pick(draw, *[v for v in (1, 1, 1, 2, 3, 4, 5) if v != old])
  if len(case['tt']) < 2:
    bad = None
  return dict(case, bad=bad, fault='mode size')


@CHECK.op('modes', gen_modes, quick=1400)
def modes(case):
  if case['bad'] is None:
    raise core.Skip('one argument')
  valid(case)
  run(case, kinds(case))


# ------------------------------------------------------------- number of cores


def gen_cores(draw):
  case, bad = start(draw, SAME + tuple(LINKED))
  key = gen.pick(draw, *sorted(case['tt']))
  s = bad['tt'][key]
  at = gen.pick(draw, 'front', 'back')
  size = gen.pick(draw, 1, 1, 2)
  rank = gen.integer(draw, 1, 2)
  if len(s['n']) > 1 and gen.flag(draw):
    cut = slice(1, None) if at == 'front' else slice(None, -1)
    s['n'] = s['n'][cut]
    s['m'] = None if s['m'] is None else s['m'][cut]
    s['r'] = [1] * (len(s['n']) + 1)
  elif at == 'front':
    s['n'] = [size] + s['n']
    s['m'] = None if s['m'] is None else [size] + s['m']
    s['r'] = [1, rank] + s['r'][1:]
    if len(s['r']) > 2:
      s['r'][1] = rank
  else:
    s['n'] = s['n'] + [size]
    s['m'] = None if s['m'] is None else s['m'] + [size]
    s['r'] = s['r'][:-1] + [rank, 1]
  if len(case['tt']) < 2:
    bad = None
  return dict(case, bad=bad, fault='number of cores')


@CHECK.op('cores', gen_cores, quick=400)
def cores(case):
  if case['bad'] is None:
    raise core.Skip('one argument')
  valid(case)
  run(case, kinds(case))


# -------------------------------------------------------- tensors and matrices


def gen_kind(draw):
  case, bad = start(draw, SAME + tuple(LINKED) +
                    ('transpose', 'matmul-dense', 'kron-inv', 'kron-cholesky',
                     'kron-determinant', 'kron-slog_determinant'))
  key = gen.pick(draw, *sorted(case['tt']))
  s = bad['tt'][key]
  if s['m'] is None:
    how = gen.pick(draw, 'ones', 'same')
    s['m'] = [1] * len(s['n']) if how == 'ones' else list(s['n'])
  else:
    s['m'] = None
  if len(case['tt']) < 2 and case['f'] in SAME:
    bad = None
  if 'kron' in bad['p'] if bad else False:
    bad['p'] = {}
  return dict(case, bad=bad, fault='kind')


@CHECK.op('kind', gen_kind, quick=400)
def kind(case):
  if case['bad'] is None:
    raise core.Skip('one argument')
  valid(case)
  run(case, ValueError if case['f'] in DOCUMENTED + ('transpose',) else
      Exception)


# ----------------------------------------------------------------- batch sizes


def gen_batch(draw):
  fault = gen.pick(draw, 'sizes', 'sizes', 'single')
  if fault == 'sizes':
    case, bad = start(draw, BROADCAST + ('add_n-projected', 'bilinear_form'))
    keys = gen.pick(draw, ('x', 'y'), ('y', 'x'))
    if case['f'] == 'add_n-projected':
      keys = ('x', 'z') if keys[0] == 'x' else ('z', 'x')
    a, b = gen.pick(draw, (2, 3), (3, 2), (2, 4), (4, 2), (3, 4))
    bad['tt'][keys[0]]['bs'], bad['tt'][keys[1]]['bs'] = a, b
    if case['f'] in ('add_n-projected',):
      bad['arr'] = {}
  else:
    case, bad = start(draw, ('gram', 'pairwise', 'pairwise-matrix', 'concat',
                             'multiply_along', 'batch_size',
                             'reduce_sum_batch'))
    key = gen.pick(draw, *[k for k in sorted(case['tt'])
                           if case['tt'][k]['bs'] is not None])
    bad['tt'][key]['bs'] = None
  return dict(case, bad=bad, fault='batch ' + fault)


@CHECK.op('batch', gen_batch, quick=400)
def batch(case):
  if len(case['bad']['tt']) < 2 and case['fault'] == 'batch sizes':
    raise core.Skip('one argument')
  valid(case)
  run(case, ValueError if case['f'] in ('matmul', 'flat_inner', 'add', 'mul',
                                        'sub', 'batch_size', 'concat') else
      Exception)


# -------------------------------------------------------------------- TT-ranks


def gen_ranks(draw):
  """Batches of one shape that cannot be put together as they are."""
  case, bad = start(draw, ('concat',))
  key = gen.pick(draw, *sorted(case['tt']))
  r = bad['tt'][key]['r']
  ways = [k for k in range(1, len(r) - 1)]
  other = r[-2:0:-1]
  if not ways:
    bad = None
  elif other != r[1:-1] and gen.flag(draw):
    # The same numbers in another order.
    r[1:-1] = other
  else:
    k = gen.pick(draw, *ways)
    r[k] = gen.pick(draw, *[v for v in (1, 2, 3, 4) if v != r[k]])
  return dict(case, bad=bad, fault='TT-rank')


@CHECK.op('ranks', gen_ranks, quick=100)
def ranks(case):
  if case['bad'] is None or len(case['tt']) < 2:
    raise core.Skip('nothing to differ')
  valid(case)
  run(case)


# --------------------------------------------------------------- dense arrays


def gen_arrays(draw):
  case, bad = start(draw, ('multiply_along', 'project_sum', 'add_n-projected',
                           'reduce_sum_batch', 'gather', 'matmul-dense',
                           'flat_inner-sparse', 'to_tt_matrix'))
  f = case['f']
  keys = [k for k in sorted(case['arr']) if not (
      f == 'flat_inner-sparse' and k == 'v')]
  if not keys:
    return dict(case, bad=None)
  key = keys[0]
  s = bad['arr'][key]
  how = 'size'
  if 'int' in s:
    how = gen.pick(draw, 'width', 'range')
    if how == 'range':
      s['out'] = gen.integer(draw, 0, len(s['int']) - 1)
      if f == 'flat_inner-sparse':
        how = 'width'
        del s['out']
    if how == 'width':
      if len(s['int']) > 1 and gen.flag(draw):
        s['int'] = s['int'][:-1]
        s['shape'][-1] -= 1
      else:
        s['int'] = s['int'] + [1]
        s['shape'][-1] += 1
      if f == 'flat_inner-sparse':
        bad['p'] = dict(bad['p'], shape=list(s['int']))
  else:
    axis = 0
    if f == 'matmul-dense':
      axis = 1 if case['p']['side'] == 'left' else 0
    elif f == 'to_tt_matrix':
      axis = gen.pick(draw, 0, 1)
    elif f == 'add_n-projected':
      axis = gen.integer(draw, 0, len(s['shape']) - 1)
    old = s['shape'][axis]
    sizes = [v for v in (1, old - 1, old + 1, 5) if v != old and v > 0]
    if f == 'add_n-projected' and axis == 1:
      # One column is broadcast.
      sizes = [v for v in sizes if v > 1]
      if old == 1:
        return dict(case, bad=None)
    s['shape'][axis] = gen.pick(draw, *sizes)
  return dict(case, bad=bad, fault='array ' + how)


def mutate_array(case):
  """Arguments with an index out of its range."""
  tts, arrays = catalog.arguments(case['bad'])
  for k, s in case['bad']['arr'].items():
    if 'out' in s:
      arrays[k] = arrays[k].copy()
      arrays[k][..., s['out']] = s['int'][s['out']]
  return tts, arrays


@CHECK.op('arrays', gen_arrays, quick=400)
def arrays(case):
  if case['bad'] is None:
    raise core.Skip('no array')
  valid(case)
  tts, arrs = mutate_array(case)
  objs = {k: x.tt for k, x in tts.items()}
  must_raise(lambda: show(catalog.call(case['bad'], objs, arrs)),
             ValueError if case['f'] == 'matmul-dense' or
             (case['f'] == 'gather' and case['fault'] == 'array width') else
             Exception, '%s with a wrong %s' % (case['f'], case['fault']))


# ----------------------------------------------------------------------- caps


def gen_caps(draw):
  case, bad = start(draw, ('round-cut', 'to_tt_tensor', 'to_tt_matrix',
                           'approximate-add_n', 'reduce_sum_batch'))
  f = case['f']
  if f == 'to_tt_tensor':
    d = len(case['arr']['y']['shape'])
  elif f == 'to_tt_matrix':
    d = len(case['p']['shape'][0])
  else:
    d = len(case['tt']['x']['n'])
  how = gen.pick(draw, 'short', 'long', 'zero', 'negative', 'zero-element')
  if d == 1 and how == 'short':
    # A list with one element is the same as a number.
    how = 'long'
  cap = [1] + [gen.integer(draw, 1, 3) for _ in range(d - 1)] + [1]
  if how == 'short':
    cap = cap[:-1]
  elif how == 'long':
    cap = cap + [1]
  elif how == 'zero':
    cap = 0
  elif how == 'negative':
    cap = -gen.integer(draw, 1, 3)
  else:
    cap[gen.integer(draw, 0, d)] = gen.pick(draw, 0, -1)
  bad['p']['cap'] = cap
  return dict(case, bad=bad, fault='cap ' + how,
              style=gen.pick(draw, 'list', 'array'))


@CHECK.op('caps', gen_caps, quick=400)
def caps(case):
  bad = case['bad']
  if case['f'] in ('approximate-add_n',) and len(bad['tt']) < 2 or \
      case['f'] == 'reduce_sum_batch' and bad['tt']['x']['bs'] < 2:
    raise core.Skip('nothing is rounded')
  valid(case)
  if case['style'] == 'array':
    case = dict(case, bad=dict(bad, p=dict(bad['p'],
                                           cap=np.array(bad['p']['cap']))))
  run(case, ValueError)


# ------------------------------------------------------------ foreign objects


FOREIGN = ('array', 'tensor', 'none', 'string', 'list')
NAMES = ('full', 'round', 'orthogonalize', 'renormalize', 'norm2', 'norm',
         'transpose', 'gram', 'kron-inv', 'kron-determinant', 'add', 'mul',
         'flat_inner', 'matmul', 'bilinear_form', 'bilinear_form_two_mat',
         'pairwise', 'project', 'project_sum', 'project_matmul', 'cast',
         'concat', 'gather', 'ones_like', 'zeros_like', 'multiply_along',
         'reduce_sum_batch', 'gradients')


def gen_foreign(draw):
  case, _ = start(draw, NAMES)
  key = gen.pick(draw, *sorted(case['tt']))
  options = FOREIGN
  if case['f'] == 'mul':
    options = ('none', 'string')
  if case['f'] == 'matmul':
    options = ('none', 'string')
  return dict(case, key=key, how=gen.pick(draw, *options))


@CHECK.op('foreign', gen_foreign, quick=350)
def foreign(case):
  valid(case)
  tts, arrs = catalog.arguments(case)
  objs = {k: x.tt for k, x in tts.items()}
  x = tts[case['key']]
  objs[case['key']] = {'array': lambda: np.array(x.d),
                       'tensor': lambda: tf.constant(x.d),
                       'none': lambda: None, 'string': lambda: 'abc',
                       'list': lambda: [np.array(c) for c in x.cores]
                       }[case['how']]()
  must_raise(lambda: show(catalog.call(case, objs, arrs)),
             ValueError if case['f'] in ('bilinear_form', 'transpose',
                                         'bilinear_form_two_mat', 'ones_like',
                                         'zeros_like', 'cast') else
             Exception,
             '%s of %s' % (case['f'], case['how']))


def gen_number(draw):
  """Products with arrays that are not numbers."""
  x = gen.tt(draw, size=100, maxr=3)
  r = x['r'][-2]
  how = gen.pick(draw, 'vector', 'one', 'full', 'matrix')
  shape = {'vector': [gen.pick(draw, 1, 2, r)], 'one': [1], 'full': x['n'],
           'matrix': [r, 1]}[how]
  if core.prod(shape) == 1:
    # One number anyway.
    shape = [2]
  return dict(x=x, shape=shape, style=gen.pick(draw, 'array', 'tensor', 'list'),
              f='mul by an array', left=gen.flag(draw))


@CHECK.op('number', gen_number, quick=150)
def number(case):
  x = core.Arg(case['x']).tt
  y = np.ones(case['shape'], case['x']['dtype']) * 2
  y = {'array': lambda: y, 'tensor': lambda: tf.constant(y),
       'list': lambda: y.tolist()}[case['style']]()
  must_raise(lambda: show(t3f.multiply(x, y)), Exception,
             'multiplication by an array of shape %s' % case['shape'])


# ------------------------------------------------------------------- indexing


def gen_index(draw):
  x = gen.tt(draw, 'any', size=200, maxr=3)
  sizes = ([] if x['bs'] is None else [x['bs']]) + x['n']
  fault = gen.pick(draw, 'more', 'fewer', 'range', 'range', 'matrix', 'batch')
  idx = [[0, s] for s in sizes]
  for k in range(len(sizes) - 1):
    if gen.flag(draw):
      idx[k] = gen.integer(draw, 0, sizes[k] - 1)
  at = gen.integer(draw, 0, len(sizes) - 1)
  if fault == 'more':
    idx.append(gen.pick(draw, 0, [0, 1]))
  elif fault == 'fewer':
    idx.pop(at)
  elif fault == 'range':
    idx[at] = gen.pick(draw, sizes[at], sizes[at] + 1, -sizes[at] - 1)
    if len(idx) - (x['bs'] is not None) == 1 and at == len(idx) - 1:
      fault = None
    if x['bs'] is not None and not any(isinstance(i, list) for i in idx[1:]):
      fault = None
  elif fault == 'batch':
    idx = gen.pick(draw, x['bs'] or 0, -(x['bs'] or 0) - 1,
                   (x['bs'] or 0) + 3)
  return dict(x=x, idx=idx, fault=fault, f='index')


@CHECK.op('index', gen_index, quick=350)
def index(case):
  x = core.Arg(case['x'])
  fault = case['fault']
  if fault is None or (fault == 'matrix') != x.matrix or \
      (fault == 'batch' and x.bs is None):
    raise core.Skip('not a fault')
  if fault == 'batch':
    must_raise(lambda: show(x.tt[case['idx']]), Exception, 'element %d of %d' %
               (case['idx'], x.bs))
    return
  idx = tuple(slice(*i) if isinstance(i, list) else i for i in case['idx'])
  if fault == 'fewer' and x.bs is not None and len(idx) == 1:
    raise core.Skip('index of the batch')
  must_raise(lambda: show(x.tt[idx]),
             ValueError if fault in ('more', 'fewer') else Exception,
             'index %s (%s)' % (case['idx'], fault))


# --------------------------------------------------------------- initializers


TENSORS = ('random_tensor', 'tensor_with_random_cores', 'random_tensor_batch',
           'tensor_batch_with_random_cores', 'tensor_ones', 'tensor_zeros',
           'eye')
MATRICES = ('random_matrix', 'matrix_with_random_cores', 'random_matrix_batch',
            'matrix_batch_with_random_cores', 'matrix_ones', 'matrix_zeros',
            'glorot_initializer', 'he_initializer', 'lecun_initializer')
RANKLESS = ('tensor_ones', 'tensor_zeros', 'eye', 'matrix_ones',
            'matrix_zeros')


def gen_init(draw):
  f = gen.pick(draw, *(TENSORS + MATRICES))
  d = gen.integer(draw, 1, 4)
  n = [gen.integer(draw, 1, 4) for _ in range(d)]
  m = [gen.integer(draw, 1, 4) for _ in range(d)]
  r = [1] + [gen.integer(draw, 1, 3) for _ in range(d - 1)] + [1]
  if gen.flag(draw):
    r = gen.integer(draw, 1, 3)
  b = gen.integer(draw, 1, 3)
  faults = ['size', 'float-size', 'nested']
  if f in MATRICES:
    faults += ['lengths', 'flat', 'size-m']
  if f not in RANKLESS:
    faults += ['rank', 'rank', 'float-rank', 'rank-length', 'rank-2d']
  if 'batch' in f:
    faults += ['batch', 'float-batch']
  fault = gen.pick(draw, *faults)
  k = gen.integer(draw, 0, d - 1)
  bad = dict(n=list(n), m=list(m), r=r if isinstance(r, int) else list(r), b=b)
  if fault == 'size':
    bad['n'][k] = gen.pick(draw, 0, -1, -2)
  elif fault == 'size-m':
    bad['m'][k] = gen.pick(draw, 0, -1, -2)
  elif fault == 'float-size':
    bad['n'][k] += 0.5
  elif fault == 'lengths':
    bad['m'] = bad['m'] + [2] if d == 1 or gen.flag(draw) else bad['m'][:-1]
  elif fault == 'rank':
    if isinstance(r, int):
      bad['r'] = gen.pick(draw, 0, -1)
    else:
      bad['r'][gen.integer(draw, 0, d)] = gen.pick(draw, 0, -1)
  elif fault == 'float-rank':
    if isinstance(r, int):
      bad['r'] = 1.5
    else:
      bad['r'][gen.integer(draw, 0, d)] = 1.5
  elif fault == 'rank-length':
    if not isinstance(r, int) and gen.flag(draw):
      # A list that fits, continued by ones.
      extra = [1] * gen.integer(draw, 1, 2)
      bad['r'] = extra + r if gen.flag(draw) else r + extra
    else:
      bad['r'] = [1] + [2] * gen.pick(draw, *[v for v in (0, 1, 2, 3, 4)
                                              if v != d - 1]) + [1]
  elif fault == 'rank-2d':
    bad['r'] = [[1] * (d + 1)]
  elif fault == 'batch':
    bad['b'] = gen.pick(draw, 0, -1)
  elif fault == 'float-batch':
    bad['b'] = 1.5
  return dict(f=f, n=n, m=m, r=r, b=b, bad=bad, fault=fault,
              style=gen.pick(draw, 'list', 'array', 'tuple'))


def initialize(f, n, m, r, b, style, fault=None):
  wrap = {'list': list, 'array': np.array, 'tuple': tuple}[style]
  fn = getattr(t3f, f)
  kw = {}
  if 'batch' in f:
    kw['batch_size'] = b
  if f not in RANKLESS:
    kw['tt_rank'] = r if not isinstance(r, list) else wrap(r)
  if f in TENSORS:
    shape = wrap(n)
    if fault == 'nested':
      shape = [n]
  else:
    shape = [wrap(n), wrap(m)]
    if fault == 'flat':
      shape = wrap(n)
    elif fault == 'nested':
      shape = [shape]
  return fn(shape, **kw)


@CHECK.op('init', gen_init, quick=500)
def init(case):
  f, bad, fault = case['f'], case['bad'], case['fault']
  initialize(f, case['n'], case['m'], case['r'], case['b'], case['style'])
  must_raise(lambda: show(initialize(f, bad['n'], bad['m'], bad['r'], bad['b'],
                                     case['style'], fault)),
             Exception if fault in ('flat', 'nested') else ValueError,
             '%s with a wrong %s' % (f, fault))


# ----------------------------------------------------------- tangent spaces etc


def gen_tangent(draw):
  x = gen.tt(draw, bs='any', maxr=2, size=60, fills=catalog.MILD, mind=2)
  y = gen.like(draw, x, bs='no', maxr=2, fills=catalog.MILD)
  z = gen.like(draw, x, bs='no', maxr=2, fills=catalog.MILD)
  return dict(x=x, y=y, z=z, f=gen.pick(
      draw, 'batch point', 'plain deltas', 'few deltas', 'many deltas',
      'wrong deltas', 'two points', 'plain inner', 'plain sum', 'empty sum',
      'few coefficients', 'many coefficients', 'matmul by a tensor',
      'sum of a mismatch', 'nothing to add', 'nothing to concatenate',
      'reversed batch'))


@CHECK.op('tangent', gen_tangent, quick=350)
def tangent(case):
  x, y, z = [core.Arg(case[k]) for k in 'xyz']
  f = case['f']
  p = t3f.project(x.tt, y.tt)
  deltas = list(t3f.tangent_space_to_deltas(p))
  back = t3f.riemannian.deltas_to_tangent_space
  two = core.make_tt([np.stack([c, c]) for c in y.cores], True)
  kinds_ = Exception
  if f == 'batch point':
    fns = (lambda: t3f.project(x.tt, two), lambda: t3f.project_sum(two, two))
    kinds_ = ValueError
  elif f == 'plain deltas':
    fns, kinds_ = (lambda: t3f.tangent_space_to_deltas(x.tt),), ValueError
  elif f == 'few deltas':
    fns = (lambda: back(deltas[:-1], y.tt), lambda: back(deltas[1:], y.tt))
  elif f == 'many deltas':
    fns = (lambda: back(deltas + deltas[-1:], y.tt),)
  elif f == 'wrong deltas':
    axis = 1 if x.bs is None else 2
    fns = [lambda k=k: back(deltas[:k] + [tf.concat([deltas[k]] * 2, axis)] +
                            deltas[k + 1:], y.tt) for k in range(len(deltas))]
  elif f == 'two points':
    o = t3f.project(x.tt, z.tt)
    fns = [lambda: t3f.add_n_projected([p, o])]
    if x.bs is not None:
      fns.append(lambda: t3f.pairwise_flat_inner_projected(p, o))
    kinds_ = ValueError
  elif f == 'plain inner':
    a = two
    fns, kinds_ = (lambda: t3f.pairwise_flat_inner_projected(a, a),), ValueError
  elif f == 'plain sum':
    fns, kinds_ = (lambda: t3f.add_n_projected([x.tt, x.tt]),), ValueError
  elif f == 'empty sum':
    fns = (lambda: t3f.add_n_projected([]),)
  elif f == 'few coefficients':
    fns = (lambda: t3f.add_n_projected([p, p], np.ones(1, x.dtype)),)
  elif f == 'many coefficients':
    fns = (lambda: t3f.add_n_projected([p, p], np.ones(3, x.dtype)),)
  elif f == 'matmul by a tensor':
    fns = (lambda: t3f.project_matmul(x.tt, y.tt, tensor_of(y)),)
  elif f == 'sum of a mismatch':
    other = core.make_tt([np.concatenate([c, c], axis=1) for c in y.cores],
                         False)
    fns = (lambda: t3f.project_sum(x.tt, other),)
    kinds_ = ValueError
  elif f == 'nothing to add':
    fns = (lambda: t3f.approximate.add_n([], 3),)
  elif f == 'nothing to concatenate':
    fns = (lambda: t3f.concat_along_batch_dim([]),)
  else:
    fns = (lambda: t3f.orthogonalize_tt_cores(two, left_to_right=False),)
  for fn in fns:
    must_raise(lambda: show(fn()), kinds_, f)


def tensor_of(y):
  """A TT-tensor with the cores of y merged."""
  return core.make_tt([c.reshape(c.shape[0], -1, c.shape[-1])
                       for c in y.cores], False)


# --------------------------------------------------------------------- values


def gen_values(draw):
  return dict(f=gen.pick(draw, *sorted(VALUES)), x=gen.tt(
      draw, size=100, maxr=3), k=gen.integer(draw, 1, 3))


VALUES = {
    'l2 integer': lambda x, k: t3f.l2_regularizer(k),
    'l2 negative': lambda x, k: t3f.l2_regularizer(-0.1 * k),
    'cores integer': lambda x, k: t3f.cores_regularizer(tf.nn.l2_loss, k),
    'cores negative': lambda x, k: t3f.cores_regularizer(tf.nn.l2_loss,
                                                         -0.1 * k),
    'round epsilon': lambda x, k: t3f.round(x, epsilon=-0.1 * k),
    'to_tt epsilon': lambda x, k: t3f.to_tt_tensor(np.ones((2, 3)),
                                                   epsilon=-0.1 * k),
    'matrix epsilon': lambda x, k: t3f.to_tt_matrix(
        np.ones((4, 4)), [[2, 2], [2, 2]], epsilon=-0.1 * k),
    'to_tt lengths': lambda x, k: t3f.to_tt_matrix(np.ones((4, 4)),
                                                   [[2, 2], [4]]),
    'shape of an array': lambda x, k: t3f.shape(np.ones(k)),
    'ranks of an array': lambda x, k: t3f.tt_ranks(np.ones(k)),
    'add a number': lambda x, k: x + k,
    'add to a number': lambda x, k: k + x,
    'subtract a number': lambda x, k: x - k,
    'keras batch': lambda x, k: t3f.nn.KerasDense([2, 2], [2], tt_rank=2),
}


@CHECK.op('values', gen_values, quick=150)
def values(case):
  x = core.Arg(case['x'])
  f = case['f']
  must_raise(lambda: VALUES[f](x.tt, case['k']),
             ValueError if f.startswith(('l2', 'cores')) or 'epsilon' in f else
             Exception, f)
