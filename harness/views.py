"""Other representations of the same objects, for metamorphic properties."""
import numpy as np
from harness import core


class View(object):
  """Cores as an argument (see core.Arg)."""

  def __init__(self, cores, matrix, batch, dtype):
    self.cores = [np.asarray(c).astype(dtype) for c in cores]
    ref = core.ref_of_cores(self.cores, matrix, batch, dtype)
    self.ref, self.d, self.a, self.q = ref, ref.d, ref.a, ref.q
    self.n, self.m, self.bs, self.matrix = ref.n, ref.m, ref.bs, matrix
    self.r = [1] + [c.shape[-1] for c in self.cores]
    self.dtype = dtype
    self.tt = core.make_tt(self.cores, batch)


def times(core_, g, side, batch):
  """A core multiplied by matrices (one for each element) along a rank."""
  c = core_ if batch else core_[None]
  g = g if batch else g[None]
  if side == 'right':
    res = np.einsum('b...i,bij->b...j', c, g)
  else:
    res = np.einsum('bij,bj...->bi...', g, c)
  return res if batch else res[0]


def gauge(x, rng, ranks, strength=1.0):
  """Multiplies neighbouring cores by a matrix and its inverse."""
  batch = x.bs is not None
  cores = [c.astype(np.float64) for c in x.cores]
  for k in ranks:
    r = cores[k].shape[0 if not batch else 1]
    gs, hs = [], []
    for _ in range(x.bs or 1):
      u = np.linalg.qr(rng.randn(r, r))[0]
      v = np.linalg.qr(rng.randn(r, r))[0]
      s = 2.0 ** rng.uniform(-strength, strength, size=r)
      gs.append((u * s).dot(v))
      hs.append((v.T / s).dot(u.T))
    g, h = (np.stack(gs), np.stack(hs)) if batch else (gs[0], hs[0])
    cores[k - 1] = times(cores[k - 1], g, 'right', batch)
    cores[k] = times(cores[k], h, 'left', batch)
  return View(cores, x.matrix, batch, x.dtype)


def partly(x, rng):
  """Some of the first or of the last cores become orthonormal."""
  batch = x.bs is not None
  cores = [c.astype(np.float64) for c in x.cores]
  d = len(cores)
  if d == 1:
    return View(cores, x.matrix, batch, x.dtype)
  items = []
  forward, steps = rng.randint(2), rng.randint(1, d)
  for b in range(x.bs or 1):
    item = [c[b] if batch else c for c in cores]
    for k in range(steps):
      if forward:
        c = item[k]
        q, r = np.linalg.qr(c.reshape(-1, c.shape[-1]))
        item[k] = q.reshape(c.shape[:-1] + (-1,))
        item[k + 1] = np.tensordot(r, item[k + 1], 1)
      else:
        c = item[d - 1 - k]
        q, r = np.linalg.qr(c.reshape(c.shape[0], -1).T)
        item[d - 1 - k] = q.T.reshape((-1,) + c.shape[1:])
        item[d - 2 - k] = np.tensordot(item[d - 2 - k], r.T, 1)
    items.append(item)
  cores = [np.stack(c) for c in zip(*items)] if batch else items[0]
  return View(cores, x.matrix, batch, x.dtype)


def rescale(x, rng, signs=True, most=6):
  """Moves numbers between cores; powers of two are exact."""
  batch = x.bs is not None
  cores = [np.array(c) for c in x.cores]
  d = len(cores)
  i, j = rng.randint(d), rng.randint(d)
  if i != j:
    f = 2.0 ** rng.randint(-most, most + 1, size=x.bs or 1) * rng.choice(
        [-1 if signs else 1, 1], size=x.bs or 1)
    f = f.reshape([-1] + [1] * (cores[i].ndim - 1)) if batch else f[0]
    cores[i] = cores[i] * f
    cores[j] = cores[j] / f
  return View(cores, x.matrix, batch, x.dtype)


def pad(x, rng, ranks):
  """Adds columns that are multiplied by zero, or doubles a rank."""
  batch = x.bs is not None
  cores = [np.array(c) for c in x.cores]
  left = 1 if batch else 0
  for k in ranks:
    a, b = cores[k - 1], cores[k]
    how = rng.randint(4)
    if how == 3:
      a, b = np.concatenate([a, a], -1), np.concatenate([b, b], left) / 2
    else:
      w = rng.randint(1, 3)
      ja = rng.randn(*(a.shape[:-1] + (w,)))
      jb = rng.randn(*(b.shape[:left] + (w,) + b.shape[left + 1:]))
      a = np.concatenate([a, ja * (how != 0)], -1)
      b = np.concatenate([b, jb * (how == 0)], left)
    cores[k - 1], cores[k] = a, b
  return View(cores, x.matrix, batch, x.dtype)


def reverse(x):
  """The dimensions in the reverse order."""
  left = 0 if x.bs is None else 1
  cores = [np.ascontiguousarray(np.swapaxes(c, left, -1))
           for c in x.cores[::-1]]
  return View(cores, x.matrix, x.bs is not None, x.dtype)


def insert(x, k):
  """A dimension of size 1 before the k-th one."""
  r = 1 if k == len(x.cores) else x.cores[k].shape[0 if x.bs is None else 1]
  one = np.eye(r).reshape((r, 1, 1, r) if x.matrix else (r, 1, r))
  if x.bs is not None:
    one = np.stack([one] * x.bs)
  cores = list(x.cores)
  cores.insert(k, one)
  return View(cores, x.matrix, x.bs is not None, x.dtype)


def reversal(n):
  """dense_of_reversed = dense[reversal(n)] for rows of a matrix."""
  return np.arange(core.prod(n)).reshape(n).transpose().reshape(-1)


class Reverse(object):
  """The order of the dimensions is reversed."""

  def modes(self, n):
    return n[::-1]

  def entries(self, n, role):
    """Positions of the entries of the new array in the old one."""
    return np.arange(core.prod(n)).reshape(n).transpose().reshape(-1)

  def tt(self, x, roles):
    return reverse(x)

  def index(self, idx, sizes):
    return idx[..., ::-1]


class Insert(object):
  """There is a new dimension of size 1."""

  def __init__(self, k):
    self.k = k

  def modes(self, n):
    return n[:self.k] + [1] + n[self.k:]

  def entries(self, n, role):
    return np.arange(core.prod(n))

  def tt(self, x, roles):
    return insert(x, self.k)

  def index(self, idx, sizes):
    return np.insert(idx, self.k, 0, axis=-1)


class Relabel(object):
  """Indices of every dimension are permuted, each role in its own way."""

  def __init__(self, seed):
    self.seed = seed

  def perms(self, n, role):
    rng = np.random.RandomState((self.seed + ord(role)) % 2 ** 32)
    return [rng.permutation(k) for k in n]

  def modes(self, n):
    return list(n)

  def entries(self, n, role):
    return np.arange(core.prod(n)).reshape(n)[
        np.ix_(*self.perms(n, role))].reshape(-1)

  def tt(self, x, roles):
    lead = 0 if x.bs is None else 1
    cores = list(x.cores)
    for axis, n in enumerate([x.n] + ([x.m] if x.matrix else [])):
      for i, p in enumerate(self.perms(n, roles[axis])):
        cores[i] = np.take(cores[i], p, axis=lead + 1 + axis)
    return View(cores, x.matrix, x.bs is not None, x.dtype)

  def index(self, idx, sizes):
    perms = self.perms(sizes, 'n')
    return np.stack([np.argsort(p)[idx[..., i]]
                     for i, p in enumerate(perms)], -1)


class Flatten(object):
  """A TT-matrix as a TT-tensor with modes n_k * m_k."""

  def tt(self, x, roles):
    cores = [c.reshape(c.shape[:-3] + (-1, c.shape[-1])) for c in x.cores]
    return View(cores, False, x.bs is not None, x.dtype)
