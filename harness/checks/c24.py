"""C24: dtypes of results and purity of operations."""
import copy
import numpy as np
import tensorflow as tf
import t3f
from harness import catalog, core, gen
from harness.core import require

CHECK = core.Check('C24', rule=(
    'A case counts if some TT-argument has at least two cores and a TT-rank '
    'above 1 (or the operation takes a dense array, a shape or Kronecker '
    'factors); distinct by JSON.'),
    nontrivial=lambda c: any(core.spec_nontrivial(s) for s in
                             core.specs_in(c)) or not c['tt'] or
    c.get('f', '').startswith('kron'),
    assumptions=['results of calls with arguments of one dtype are judged by '
                 'the other properties'])

INTEGER = ('shapes', 'lazy-shapes', 'batch_size')


class Snapshot(object):
  """Everything observable of a TT-object, tensor, array or list."""

  def __init__(self, obj, what):
    self.obj, self.what = obj, what
    self.state = self.observe(obj)

  @staticmethod
  def observe(x):
    if core.is_tt(x):
      res = [type(x).__name__, [Snapshot.observe(c) for c in x.tt_cores],
             [id(c) for c in x.tt_cores], str(x.get_tt_ranks()),
             str(x.get_raw_shape()), str(x.get_shape()), str(x.dtype), str(x),
             x.ndims(), bool(x.is_tt_matrix()), x.is_variable(),
             x.left_tt_rank_dim, x.right_tt_rank_dim,
             id(getattr(x, 'projection_on', None)) if
             getattr(x, 'projection_on', None) is not None else None]
      if isinstance(x, t3f.TensorTrainBatch):
        res.append(int(x.batch_size))
      return res
    if isinstance(x, np.ndarray) or tf.is_tensor(x):
      y = core.to_np(x)
      return ['array', str(y.dtype), y.shape, y.tobytes()]
    if isinstance(x, (list, tuple)):
      return [type(x).__name__, len(x), [id(y) for y in x if core.is_tt(y)],
              [Snapshot.observe(y) for y in x]]
    if isinstance(x, dict):
      return {k: Snapshot.observe(x[k]) for k in sorted(x)}
    return repr(x)

  def verify(self, when):
    new = self.observe(self.obj)
    if new != self.state:
      diff = [(a, b) for a, b in zip(self.state, new) if a != b]
      core.fail('%s changed %s: %s', when, self.what, str(diff)[:400])


def variable_copy(x):
  cls = t3f.TensorTrainBatch if x.bs is not None else t3f.TensorTrain
  return cls([tf.Variable(c) for c in x.cores], convert_to_tensors=False)


def gen_all(draw):
  case = catalog.gen_case(draw)
  case['how'] = gen.pick(draw, 'tensor', 'tensor', 'variable', 'numpy')
  case['arrays'] = gen.pick(draw, 'numpy', 'tensor')
  case['caps'] = gen.pick(draw, 'list', 'array', 'tuple')
  case['then'] = gen.pick(draw, 'scale', 'round', 'add', 'full', 'orth')
  return case


def prepare(case):
  tts, arrays = catalog.arguments(case)
  objs = {}
  for k, x in tts.items():
    if case['how'] == 'variable':
      objs[k] = variable_copy(x)
    elif case['how'] == 'numpy':
      cls = t3f.TensorTrainBatch if x.bs is not None else t3f.TensorTrain
      objs[k] = cls([np.array(c) for c in x.cores])
    else:
      objs[k] = x.tt
  if case['arrays'] == 'tensor':
    arrays = {k: tf.constant(v) for k, v in arrays.items()}
  p = copy.deepcopy(case['p'])
  cap = p.get('cap')
  if isinstance(cap, list) and case['caps'] != 'list':
    p['cap'] = np.array(cap) if case['caps'] == 'array' else tuple(cap)
  return tts, objs, arrays, p


def expected_dtype(case, tts, arrays):
  if case['f'] in INTEGER:
    return None
  if case['f'] == 'cast':
    return case['p']['to']
  for x in tts.values():
    return x.dtype
  return arrays['y'].dtype.name


@CHECK.op('dtype', gen_all, quick=700)
def dtype(case):
  """Results have the dtype of the arguments."""
  tts, objs, arrays, p = prepare(case)
  want = expected_dtype(case, tts, catalog.arguments(case)[1])
  res = catalog.flatten(catalog.call(dict(case, p=p), objs, arrays))
  require(res, '%s returned nothing', case['f'])
  for r in res:
    if core.is_tt(r):
      require(r.dtype == tf.as_dtype(want), '%s: dtype %s instead of %s',
              case['f'], r.dtype, want)
      for c in core.result_cores(r):
        require(c.dtype.name == want, '%s: a core of dtype %s instead of %s',
                case['f'], c.dtype, want)
      q = core.check_queries(r, case['f'])
      require(q['dtype'] == want, '%s: dtype', case['f'])
    else:
      got = core.to_np(r).dtype
      if want is None:
        require(got.kind == 'i', '%s: dtype %s', case['f'], got)
      else:
        require(got.name == want, '%s: dtype %s instead of %s', case['f'], got,
                want)


@CHECK.op('purity', gen_all, quick=900)
def purity(case):
  """Arguments and earlier results stay as they were."""
  f = case['f']
  tts, objs, arrays, p = prepare(case)
  tf.random.set_seed(case['seed'])
  shots = [Snapshot(x, 'argument %s' % k) for k, x in sorted(objs.items())]
  shots += [Snapshot(x, 'array %s' % k) for k, x in sorted(arrays.items())]
  shots.append(Snapshot(p, 'parameters'))
  current = dict(case, p=p)
  res = catalog.flatten(catalog.call(current, objs, arrays))
  for s in shots:
    s.verify(f)
  later = [Snapshot(r, 'an earlier result of ' + f) for r in res]
  again = catalog.flatten(catalog.call(current, objs, arrays))
  for s in shots + later:
    s.verify('the second call of ' + f)
  require(len(res) == len(again), '%s: another number of results', f)
  dtype = 'float32' if any(x.dtype == 'float32' for x in tts.values()) or \
      not tts or p.get('to') == 'float32' else 'float64'
  scale = catalog.scale_of(case, tts, catalog.arguments(case)[1])
  for a, b in zip(res, again):
    if core.is_tt(a):
      dense = lambda r: core.contract(
          core.result_cores(r), a.is_tt_matrix(),
          isinstance(a, t3f.TensorTrainBatch))
      core.close(dense(b), dense(a), scale, dtype, 'the second call of ' + f)
    else:
      a = core.to_np(a)
      core.close(core.to_np(b), a, scale + np.max(np.abs(a)), dtype,
                 'the second call of ' + f)
  # The results are arguments of the next operations.
  for r in res:
    if not core.is_tt(r):
      continue
    if case['then'] == 'scale':
      2. * r
    elif case['then'] == 'round':
      t3f.round(r, max_tt_rank=2)
    elif case['then'] == 'add':
      r + r
      r * r
    elif case['then'] == 'orth':
      t3f.orthogonalize_tt_cores(r)
      t3f.renormalize_tt_cores(r)
    else:
      t3f.full(r)
      t3f.frobenius_norm_squared(r)
      t3f.frobenius_norm_squared(r, differentiable=True)
  for s in shots + later:
    s.verify('an operation on the result of ' + f)


# ------------------------------------------------------------------- mixing


PAIRED = ('add', 'sub', 'mul', 'flat_inner', 'matmul', 'matmul-dense',
          'pairwise', 'project', 'bilinear_form', 'bilinear_form_two_mat',
          'concat', 'pairwise-matrix', 'multiply_along', 'project_sum',
          'project_matmul', 'pairwise-projected', 'add_n-projected',
          'approximate-add_n', 'reduce_sum_batch', 'flat_inner-sparse',
          'deltas', 'hessian', 'gradients')


def gen_mixed(draw):
  case = catalog.gen_case(draw, PAIRED)
  floats = [('tt', k) for k in sorted(case['tt'])] + \
      [('arr', k) for k in sorted(case['arr']) if 'dtype' in case['arr'][k]]
  case['odd'] = list(gen.pick(draw, *floats))
  return case


@CHECK.op('mixed', gen_mixed, quick=450)
def mixed(case):
  """Arguments of different dtypes: an exception or the right value."""
  if len(case['tt']) + sum('dtype' in a for a in case['arr'].values()) < 2:
    raise core.Skip('one argument')
  if case['f'] in ('gradients', 'hessian'):
    case = dict(case, p=dict(check=False))
  f = case['f']
  tts, arrays = catalog.arguments(case)
  group, key = case['odd']
  objs = {k: x.tt for k, x in tts.items()}
  arrays2 = dict(arrays)
  now = case[group][key]['dtype']
  other = 'float32' if now == 'float64' else 'float64'
  if group == 'tt':
    x = tts[key]
    objs[key] = core.make_tt([c.astype(other) for c in x.cores],
                             x.bs is not None)
  else:
    arrays2[key] = arrays[key].astype(other)
  shots = [Snapshot(x, 'argument %s' % k) for k, x in sorted(objs.items())]
  shots += [Snapshot(x, 'array %s' % k) for k, x in sorted(arrays2.items())]
  want = catalog.flatten(catalog.call(case, {k: x.tt for k, x in tts.items()},
                                      arrays))
  try:
    res = catalog.flatten(catalog.call(case, objs, arrays2))
  except Exception:  # pylint: disable=broad-except
    res = None
  for s in shots:
    s.verify('a mixed call of ' + f)
  if res is None:
    return
  require(len(res) == len(want), 'mixed %s: another number of results', f)
  scale = catalog.scale_of(case, tts, arrays)
  for r, w in zip(res, want):
    require(core.is_tt(r) == core.is_tt(w), 'mixed %s: kind', f)
    if core.is_tt(r):
      require(type(r) is type(w), 'mixed %s: kind', f)
      names = {c.dtype.name for c in core.result_cores(r)}
      require(len(names) == 1, 'mixed %s: cores of dtypes %s', f, names)
      q = core.check_queries(r, 'mixed ' + f)
      dense = lambda z: core.contract(core.result_cores(z), q['matrix'],
                                      q['bs'] is not None)
      core.close(dense(r), dense(w), scale, 'float32', 'mixed ' + f)
    else:
      w = core.to_np(w)
      core.close(core.to_np(r), w, scale + np.max(np.abs(w), initial=0),
                 'float32', 'mixed ' + f)


# --------------------------------------------------------------------- cast


def gen_cast(draw):
  return dict(tt=dict(x=gen.tt(draw, size=300, maxr=4)),
              to=gen.pick(draw, 'float32', 'float64', 'float16'),
              how=gen.pick(draw, 'tensor', 'variable', 'projection'),
              by=gen.pick(draw, 'tf', 'name', 'numpy'))


@CHECK.op('cast', gen_cast, quick=500)
def cast(case):
  """Casting rounds each core and nothing else."""
  x = core.Arg(case['tt']['x'])
  obj = variable_copy(x) if case['how'] == 'variable' else x.tt
  to = tf.as_dtype(case['to'])
  to = {'tf': to, 'name': case['to'], 'numpy': to.as_numpy_dtype}[case['by']]
  shot = Snapshot(obj, 'the argument')
  res = t3f.cast(obj, to)
  shot.verify('cast')
  cores, ranks = core.check_structure(res, x.matrix, x.n, x.m, x.bs,
                                      case['to'], 'cast')
  for k, (c, o) in enumerate(zip(cores, x.cores)):
    with np.errstate(over='ignore'):
      want = o.astype(case['to'])
      # TensorFlow may go from float64 to float16 through float32.
      twice = o.astype('float32').astype(case['to'])
    require(np.all((c == want) | (c == twice) if case['to'] == 'float16' else
                   c == want), 'cast: core %d is not rounded', k)
  require(not res.is_variable(), 'cast is a variable')
  back = t3f.cast(res, tf.as_dtype(x.dtype))
  require(back.dtype == tf.as_dtype(x.dtype), 'dtype after casting back')
  wide = np.dtype(case['to']).itemsize >= np.dtype(x.dtype).itemsize
  for c, o in zip(core.result_cores(back), x.cores):
    if wide:
      require(np.array_equal(c, o), 'casting back and forth changes values')


# ------------------------------------------- lists, shapes and other arguments


def gen_lists(draw):
  x = gen.tt(draw, maxr=2, size=60, fills=catalog.MILD, bs='yes')
  same = [dict(x, seed=gen.seed(draw)) for _ in range(gen.integer(draw, 1, 4))]
  return dict(tt=dict(xs=same), what=gen.pick(
      draw, 'add_n', 'concat', 'add_n_projected', 'constructor', 'deltas',
      'assign'))


@CHECK.op('lists', gen_lists, quick=250)
def lists(case):
  """Lists given to the library are neither changed nor kept."""
  xs = [core.Arg(s) for s in case['tt']['xs']]
  objs = [x.tt for x in xs]
  what = case['what']
  if what == 'add_n':
    shot = Snapshot(objs, 'the list')
    res = t3f.approximate.add_n(objs, 3)
    shot.verify(what)
  elif what == 'concat':
    shot = Snapshot(objs, 'the list')
    res = t3f.concat_along_batch_dim(objs)
    shot.verify(what)
  elif what == 'add_n_projected':
    point = core.make_tt([c[0] for c in xs[0].cores], False)
    objs = [t3f.project(o, point) for o in objs]
    coef = [float(i + 1) for i in range(len(objs))]
    shots = [Snapshot(objs, 'the list'), Snapshot(coef, 'the coefficients'),
             Snapshot(point, 'the point')]
    res = t3f.add_n_projected(objs, np.array(coef, xs[0].dtype))
    for s in shots:
      s.verify(what)
  elif what == 'constructor':
    cores = [tf.constant(c) for c in xs[0].cores]
    ranks = list(xs[0].r)
    raw = [list(xs[0].n)] + ([list(xs[0].m)] if xs[0].matrix else [])
    shots = [Snapshot(cores, 'the list of cores'), Snapshot(raw, 'the shape'),
             Snapshot(ranks, 'the ranks')]
    res = t3f.TensorTrainBatch(cores, raw, tf.TensorShape(ranks))
    for s in shots:
      s.verify(what)
    mine = Snapshot(res, 'the object')
    del cores[:]
    ranks[0] = 7
    raw[0][0] = 99
    mine.verify('changing the lists given to the constructor')
    require(isinstance(res.tt_cores, tuple), 'tt_cores is a %s',
            type(res.tt_cores))
    return
  elif what == 'deltas':
    point = core.make_tt([c[0] for c in xs[0].cores], False)
    p = t3f.project(objs[0], point)
    deltas = list(t3f.tangent_space_to_deltas(p))
    shots = [Snapshot(deltas, 'the list of deltas'), Snapshot(p, 'projection'),
             Snapshot(point, 'the point')]
    res = t3f.riemannian.deltas_to_tangent_space(deltas, point)
    for s in shots:
      s.verify(what)
  else:
    var = variable_copy(xs[0])
    value = xs[-1].tt
    shots = [Snapshot(value, 'the new value')]
    t3f.assign(var, value)
    shots[0].verify(what)
    for c, w in zip(core.result_cores(var), xs[-1].cores):
      require(np.array_equal(c, w), 'assign')
    t3f.assign(var, objs[0])
    shots[0].verify('the next assignment')
    return
  mine = Snapshot(res, 'the result')
  del objs[:]
  mine.verify('changing the list')


CREATORS = ('random_tensor', 'tensor_with_random_cores', 'tensor_batch',
            'random_tensor_batch', 'random_matrix', 'matrix_with_random_cores',
            'random_matrix_batch', 'glorot', 'he', 'lecun', 'tensor_ones',
            'tensor_zeros', 'eye', 'matrix_ones', 'matrix_zeros',
            'matrix_batch', 'to_tt_matrix', 'to_tt_tensor', 'keras')


def gen_create(draw):
  d = gen.integer(draw, 1, 4)
  return dict(tt={}, n=[gen.integer(draw, 1, 4) for _ in range(d)],
              m=[gen.integer(draw, 1, 4) for _ in range(d)],
              r=[1] + [gen.integer(draw, 1, 3) for _ in range(d - 1)] + [1],
              dt=gen.dtype(draw), style=gen.pick(draw, 'list', 'array'),
              f=gen.pick(draw, *CREATORS),
              omit=gen.pick(draw, None, None, 'rows', 'columns'))


@CHECK.op('create', gen_create, quick=400)
def create(case):
  """Constructors: dtype of the cores, shapes and ranks untouched."""
  f, dt = case['f'], tf.as_dtype(case['dt'])
  wrap = (lambda z: np.array(z)) if case['style'] == 'array' else list
  n, m, r = wrap(case['n']), wrap(case['m']), wrap(case['r'])
  shape = [n, m] if case['style'] == 'list' else np.array([case['n'],
                                                           case['m']])
  omit = case['omit'] if case['style'] == 'list' else None
  sizes = [case['n'], case['m']]
  if omit and f != 'keras':
    k = 0 if omit == 'rows' else 1
    shape[k], sizes[k] = None, [1] * len(case['n'])
  shots = [Snapshot(z, 'an argument') for z in (n, m, r, shape)]
  calls = {
      'random_tensor': lambda: t3f.random_tensor(n, r, dtype=dt),
      'tensor_with_random_cores': lambda: t3f.tensor_with_random_cores(
          n, r, dtype=dt),
      'tensor_batch': lambda: t3f.tensor_batch_with_random_cores(
          n, r, batch_size=2, dtype=dt),
      'random_tensor_batch': lambda: t3f.random_tensor_batch(
          n, r, batch_size=2, dtype=dt),
      'random_matrix': lambda: t3f.random_matrix(shape, r, dtype=dt),
      'matrix_with_random_cores': lambda: t3f.matrix_with_random_cores(
          shape, r, dtype=dt),
      'random_matrix_batch': lambda: t3f.random_matrix_batch(
          shape, r, batch_size=2, dtype=dt),
      'glorot': lambda: t3f.glorot_initializer(shape, r, dtype=dt),
      'he': lambda: t3f.he_initializer(shape, r, dtype=dt),
      'lecun': lambda: t3f.lecun_initializer(shape, r, dtype=dt),
      'tensor_ones': lambda: t3f.tensor_ones(n, dtype=dt),
      'tensor_zeros': lambda: t3f.tensor_zeros(n, dtype=dt),
      'eye': lambda: t3f.eye(n, dtype=dt),
      'matrix_ones': lambda: t3f.matrix_ones(shape, dtype=dt),
      'matrix_zeros': lambda: t3f.matrix_zeros(shape, dtype=dt),
      'matrix_batch': lambda: t3f.matrix_batch_with_random_cores(
          shape, r, batch_size=2, dtype=dt),
      'to_tt_matrix': lambda: t3f.to_tt_matrix(
          np.ones([core.prod(z) for z in sizes], case['dt']), shape, r),
      'to_tt_tensor': lambda: t3f.to_tt_tensor(np.ones(case['n'], case['dt']),
                                               r)}
  if f == 'keras':
    layer = t3f.nn.KerasDense(n, m, tt_rank=r)
    layer.build([None, core.prod(case['n'])])
    for s in shots:
      s.verify(f)
    return
  res = calls[f]()
  for s in shots:
    s.verify(f)
  require(res.dtype == dt, '%s: dtype %s', f, res.dtype)
  for c in core.result_cores(res):
    require(c.dtype.name == case['dt'], '%s: core dtype %s', f, c.dtype)
  core.check_queries(res, f)
  if case['style'] == 'array':
    mine = Snapshot(res, 'the result of ' + f)
    n[:] = 9
    r[:] = 9
    shape[:] = 9
    mine.verify('changing the arrays given to ' + f)
