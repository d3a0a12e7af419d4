"""C33: relabelling of dimensions and indices only relabels the results."""
import numpy as np
import t3f
from harness import catalog, core, gen, views
from harness.checks import c32
from harness.core import require

CHECK = core.Check('C33', rule=(
    'A case counts if some TT-argument has at least two cores and a TT-rank '
    'above 1 and is not zero; distinct by JSON.'),
    nontrivial=lambda c: any(core.spec_nontrivial(s) for s in
                             core.specs_in(c)) or c['f'].startswith('kron'),
    assumptions=['only results of one operation for two namings of the same '
                 'entries are compared; other properties judge the values'])

LEFT_OUT = ('cores-reg', 'shapes', 'lazy-shapes', 'batch_size')
# Roles of the rows and the columns of arguments (and of the result).
ROLES = {
    'matmul': dict(x='nm', y='mk', res='nk'),
    'bilinear_form': dict(A='nm', x='n1', y='m1'),
    'bilinear_form_two_mat': dict(A='nm', B='mk', x='n1', y='k1'),
    'pairwise-matrix': dict(A='nm', x='n1', y='m1'),
    'project_matmul': dict(x='nm', y='nm', A='nn', res='nm'),
    'transpose': dict(x='nm', res='mn'),
    'kron-determinant': dict(x='nn'),
    'kron-slog_determinant': dict(x='nn'),
    'kron-inv': dict(x='nn', res='nn'),
}
# Operations that know about rows and columns.
OF_MATRICES = tuple(ROLES) + ('matmul-dense', 'kron-cholesky', 'to_tt_tensor',
                              'to_tt_matrix', 'flat_inner-sparse')


def gen_case(draw):
  how = gen.pick(draw, 'reverse', 'reverse', 'insert', 'insert', 'relabel',
                 'flatten')
  out = {'reverse': ('round-cut',), 'insert': (),
         'relabel': ('kron-cholesky', 'index'),
         'flatten': OF_MATRICES + ('index', 'gather')}[how] + LEFT_OUT
  case = catalog.gen_case(draw, [k for k in sorted(catalog.ENTRIES)
                                 if k not in out])
  for s in list(case['tt'].values()) + list(case['arr'].values()):
    if 'dtype' in s:
      s['dtype'] = 'float64'
  f = case['f']
  if f in ('approximate-add_n', 'reduce_sum_batch', 'to_tt_tensor',
           'to_tt_matrix'):
    case['p']['cap'] = 60
  if how == 'flatten' and any(s['m'] is None for s in case['tt'].values()):
    how = 'relabel' if f not in ('kron-cholesky', 'index') else 'reverse'
    if f == 'round-cut':
      how = 'relabel'
  if how == 'insert':
    d = [len(s['n']) for s in case['tt'].values()]
    d = d[0] if d else len(case['p'].get('shape', [[0] * len(
        case['arr'].get('y', {}).get('shape', ()))])[0])
    case['at'] = gen.integer(draw, 0, d)
    case['number'] = gen.flag(draw)
  case['how'] = how
  case['seed'] = gen.seed(draw)
  return case


def transform(case):
  how = case['how']
  if how == 'reverse':
    return views.Reverse()
  if how == 'insert':
    return views.Insert(case['at'])
  if how == 'relabel':
    return views.Relabel(case['seed'])
  return views.Flatten()


def moved_arguments(case, t, tts, arrays):
  """Parameters and arrays for the new naming."""
  f, p, arrays = case['f'], dict(case['p']), dict(arrays)
  x = tts.get('x')
  if f == 'index':
    idx = p['idx'] if x.bs is None else p['idx'][1:]
    if case['how'] == 'reverse':
      idx = idx[::-1]
    else:
      k = case['at']
      idx = idx[:k] + [0 if case['number'] else [0, 1]] + idx[k:]
    p['idx'] = (p['idx'][:1] if x.bs is not None else []) + idx
  elif f == 'gather':
    lead = 0 if x.bs is None else 1
    i = arrays['i']
    arrays['i'] = np.concatenate(
        [i[..., :lead], t.index(i[..., lead:], x.n)], axis=-1)
  elif f == 'flat_inner-sparse':
    i = arrays['i']
    if x.matrix:
      ps = [t.entries(n, r) for n, r in zip((x.n, x.m), 'nm')]
      arrays['i'] = np.stack([np.argsort(q)[i[:, k]]
                              for k, q in enumerate(ps)], -1)
    else:
      arrays['i'] = t.index(i, x.n)
      p['shape'] = t.modes(p['shape'])
  elif f == 'matmul-dense':
    if p['side'] == 'left':
      arrays['y'] = arrays['y'][:, t.entries(x.n, 'n')]
    else:
      arrays['y'] = arrays['y'][t.entries(x.m, 'm')]
  elif f == 'to_tt_tensor':
    y = arrays['y']
    n = list(y.shape)
    arrays['y'] = y.reshape(-1)[t.entries(n, 'n')].reshape(t.modes(n))
  elif f == 'to_tt_matrix':
    n, m = p['shape']
    arrays['y'] = arrays['y'][t.entries(n, 'n')][:, t.entries(m, 'm')]
    p['shape'] = [t.modes(n), t.modes(m)]
  elif f == 'round-cut' and case['how'] == 'insert':
    if isinstance(p['cap'], list):
      k = case['at']
      p['cap'] = p['cap'][:k] + [p['cap'][k]] + p['cap'][k:]
  return p, arrays


def moved_tt(case, t, r):
  """A result with the other naming."""
  view = views.View(core.result_cores(r), r.is_tt_matrix(),
                    isinstance(r, t3f.TensorTrainBatch), 'float64')
  if case['f'] == 'index' and case['how'] == 'insert':
    if case['number']:
      return view
    idx = case['p']['idx'][0 if case['tt']['x']['bs'] is None else 1:]
    t = views.Insert(sum(isinstance(i, list) for i in idx[:case['at']]))
  return t.tt(view, ROLES.get(case['f'], {}).get('res', 'nm'))


def moved_array(case, t, tts, y):
  f = case['f']
  if f == 'full':
    x = tts['x']
    if case['how'] == 'flatten':
      return t.tt(x, 'nm').d
    items = y[None] if x.bs is None else y
    if x.matrix:
      res = items[:, t.entries(x.n, 'n')][:, :, t.entries(x.m, 'm')]
    else:
      res = items.reshape(len(items), -1)[:, t.entries(x.n, 'n')].reshape(
          [len(items)] + t.modes(x.n))
    return res[0] if x.bs is None else res
  if f == 'matmul-dense':
    x = tts['x']
    if case['p']['side'] == 'left':
      return y[:, t.entries(x.m, 'm')]
    return y[t.entries(x.n, 'n')]
  return y


@CHECK.op('naming', gen_case, quick=4500)
def naming(case):
  f = case['f']
  tts, arrays = catalog.arguments(case)
  scale = c32.tolerance(case, tts, tts, arrays)
  if scale is None:
    raise core.Skip('not well defined')
  t = transform(case)
  roles = ROLES.get(f, {})
  others = {k: t.tt(x, roles.get(k, 'nm')) for k, x in tts.items()}
  p, moved = moved_arguments(case, t, tts, arrays)
  a = catalog.call(case, {k: x.tt for k, x in tts.items()}, arrays)
  b = catalog.call(dict(case, p=p), {k: x.tt for k, x in others.items()},
                   moved)
  what = '%s: %s' % (f, case['how'])
  a, b = catalog.flatten(a), catalog.flatten(b)
  require(len(a) == len(b), '%s: number of results', what)
  for u, v in zip(a, b):
    require(core.is_tt(u) == core.is_tt(v), '%s: kinds', what)
    if core.is_tt(u):
      require(isinstance(u, t3f.TensorTrainBatch) ==
              isinstance(v, t3f.TensorTrainBatch), '%s: kinds', what)
      core.check_queries(v, what)
      want = moved_tt(case, t, u)
      require(v.is_tt_matrix() == want.matrix, '%s: kind', what)
      got, want = c32.dense(v), want.d
    else:
      got, want = core.to_np(v), moved_array(case, t, tts, core.to_np(u))
    core.close(got, want, scale + np.max(np.abs(want), initial=0), 'float64',
               what)
