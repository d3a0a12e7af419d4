"""Generators of cases.

All take the `draw` function of Hypothesis or an object of choices.Choices.
"""
from hypothesis import strategies as st
from harness.choices import Choices

FILLS = ('normal', 'normal', 'normal', 'int', 'pos', 'scaled', 'sparse',
         'deficient', 'zerocore', 'zero')
REGULAR = ('normal', 'normal', 'int', 'pos')
SEED = 2 ** 31 - 1


def integer(draw, lo, hi):
  if isinstance(draw, Choices):
    return draw.integer(lo, hi)
  return draw(st.integers(lo, hi))


def pick(draw, *xs):
  if isinstance(draw, Choices):
    return xs[draw.integer(0, len(xs) - 1)]
  return draw(st.sampled_from(xs))


def flag(draw):
  if isinstance(draw, Choices):
    return bool(draw.integer(0, 1))
  return draw(st.booleans())


def seed(draw):
  return integer(draw, 0, SEED)


def dtype(draw):
  return pick(draw, 'float64', 'float64', 'float32')


def _cap(xs, size):
  """Reduces the largest sizes until the product is at most `size`."""
  xs = list(xs)
  def total():
    res = 1
    for x in xs:
      res *= x
    return res
  while total() > size:
    k = max(range(len(xs)), key=lambda i: (xs[i], i))
    xs[k] -= 1
  return xs


def _long(draw, xs, size):
  """One size becomes long and the others pay for it."""
  k = integer(draw, 0, len(xs) - 1)
  long = min(integer(draw, 6, 16), size)
  rest = _cap([x for i, x in enumerate(xs) if i != k] or [1],
              max(1, size // long))
  return rest[:k] + [long] + rest[k:] if len(xs) > 1 else [long]


def modes(draw, size=1500, mind=1, maxd=7):
  """Mode sizes of a tensor with at most `size` entries."""
  style = pick(draw, 'small', 'small', 'small', 'small', 'small', 'small',
               'deep', 'deep', 'wide', 'wide', 'equal', 'equal', 'deeper', 'long')
  if style.startswith('deep') and maxd < 5:
    style = 'small'
  if style == 'small':
    d = max(mind, min(maxd, pick(draw, 1, 2, 2, 3, 3, 3, 4)))
    xs = [integer(draw, 1, 5) for _ in range(d)]
  elif style == 'deep':
    d = integer(draw, max(mind, 5), max(maxd, mind))
    xs = [integer(draw, 1, 3) for _ in range(d)]
  elif style == 'deeper':
    d = integer(draw, maxd, maxd + 4)
    xs = [integer(draw, 1, 2) for _ in range(d)]
  elif style == 'wide':
    d = max(mind, min(maxd, pick(draw, 1, 2, 2)))
    xs = [integer(draw, 1, 12) for _ in range(d)]
  elif style == 'long':
    d = max(mind, min(maxd, pick(draw, 2, 3, 3, 4, 5)))
    return _long(draw, [integer(draw, 1, 3) for _ in range(d)], size)
  else:
    d = max(mind, min(maxd, pick(draw, 1, 2, 3, 4, 5)))
    xs = [integer(draw, 2, 4)] * d
  return _cap(xs, size)


def matrix_modes(draw, size=1500, mind=1, maxd=6, square=False, d=None):
  if d is None:
    d = max(mind, min(maxd, pick(draw, 1, 2, 2, 3, 3, 4, maxd)))
  hi = {1: 8, 2: 5, 3: 4, 4: 3}.get(d, 2)
  if square:
    n = [integer(draw, 1, hi) for _ in range(d)]
    if size >= 64 and pick(draw, 0, 0, 0, 0, 0, 1):
      n = _long(draw, [min(x, 2) for x in n], int(size ** 0.5))
    while True:
      total = 1
      for x in n:
        total *= x * x
      if total <= size:
        break
      k = max(range(d), key=lambda i: n[i])
      n[k] -= 1
    return n, list(n)
  style = pick(draw, 'any', 'any', 'any', 'any', 'square', 'equal', 'reversed',
               'long')
  if style == 'square':
    return matrix_modes(draw, size, mind, maxd, True, d)
  xs = [integer(draw, 1, hi) for _ in range(2 * d)]
  if style == 'equal':
    xs = [xs[0]] * d + [xs[1 % len(xs)]] * d
  elif style == 'reversed':
    xs = xs[:d] + xs[:d][::-1]
  elif style == 'long':
    xs = _long(draw, [min(x, 3) for x in xs], size)
    return xs[:d], xs[d:]
  xs = _cap(xs, size)
  return xs[:d], xs[d:]


def mode_lists(draw, count, d, hi):
  """Lists of mode sizes, some of which may coincide."""
  res = []
  for _ in range(count):
    how = pick(draw, 'new', 'new', 'new', 'new', 'copy', 'constant', 'long')
    if how == 'copy' and res:
      res.append(list(pick(draw, *res)))
    elif how == 'constant':
      res.append([integer(draw, 1, hi)] * d)
    elif how == 'long':
      res.append(_long(draw, [integer(draw, 1, hi - 1) for _ in range(d)], 24))
    else:
      res.append([integer(draw, 1, hi) for _ in range(d)])
  return res


def ranks(draw, d, maxr=4):
  style = pick(draw, 'any', 'any', 'any', 'any', 'any', 'any', 'any', 'any',
               'equal', 'equal', 'one', 'high')
  if style == 'high' and d <= 6:
    mid = [integer(draw, 1, maxr) for _ in range(d - 1)]
    if mid:
      mid[integer(draw, 0, d - 2)] = integer(draw, maxr + 1, maxr + 5)
  elif style == 'equal':
    r = integer(draw, 1, maxr)
    mid = [r] * (d - 1)
  elif style == 'one':
    mid = [1] * (d - 1)
  else:
    mid = [integer(draw, 1, maxr) for _ in range(d - 1)]
  return [1] + mid + [1]


def batch(draw, mode='any', maxb=4):
  """mode: 'any' (single or batch), 'yes', 'no' or a number/None."""
  if mode == 'any':
    b = pick(draw, None, None, None, None, None, None, 1, 1, 2, 2, 3, 3, maxb,
             0)
    return integer(draw, maxb + 1, maxb + 6) if b == 0 else b
  if mode == 'yes':
    b = pick(draw, 1, 1, 2, 2, 2, 2, 3, 3, maxb, 0)
    return integer(draw, maxb + 1, maxb + 6) if b == 0 else b
  if mode == 'no':
    return None
  return mode


def tt(draw, kind='any', n=None, m=None, bs='any', dt=None, maxr=4,
       fills=FILLS, size=1500, mind=1, maxd=6, r=None, square=False):
  """Description of a TT-object."""
  if kind == 'any':
    kind = pick(draw, 'tensor', 'matrix')
  if n is None:
    if kind == 'tensor':
      n = modes(draw, size, mind, maxd)
    else:
      n, m = matrix_modes(draw, size, mind, maxd, square)
  b = batch(draw, bs)
  fills = tuple(fills)
  if b is not None and b > 1 and len(set(fills)) > 4:
    fills = fills + ('mixed', 'mixed')
  return dict(n=list(n), m=None if m is None or kind == 'tensor' else list(m),
              r=ranks(draw, len(n), maxr) if r is None else list(r), bs=b,
              dtype=dt or dtype(draw), fill=pick(draw, *fills),
              seed=seed(draw))


def like(draw, spec, bs='any', maxr=4, fills=FILLS, dt=None):
  """Another object of the same kind and shape, with its own ranks."""
  return tt(draw, kind='tensor' if spec['m'] is None else 'matrix',
            n=spec['n'], m=spec['m'], bs=bs, dt=dt or spec['dtype'],
            maxr=maxr, fills=fills)


def partner_batch(draw, bs):
  """A batch size broadcastable with bs."""
  if bs is None:
    return batch(draw, 'any')
  if bs == 1:
    return pick(draw, None, None, 1, 1, 2, 2, 3, 3, 6)
  return pick(draw, None, 1, bs, bs)
