"""Dense orthogonal projection on a tangent space of the fixed-rank manifold.

Uses only the dense point: the spaces of columns and rows of its unfoldings.
"""
import numpy as np
from harness import core


def interleave(x, n, m):
  if m is None:
    return x
  d = len(n)
  y = x.reshape(list(n) + list(m))
  y = y.transpose([i for k in range(d) for i in (k, d + k)])
  return y.reshape([a * b for a, b in zip(n, m)])


def deinterleave(x, n, m):
  if m is None:
    return x
  d = len(n)
  y = x.reshape([s for p in zip(n, m) for s in p])
  y = y.transpose(list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))
  return y.reshape(core.prod(n), core.prod(m))


def generic_ranks(r, shape):
  """TT-ranks of a generic tensor represented with the ranks r."""
  r = list(r)
  d = len(shape)
  for k in range(1, d):
    r[k] = min(r[k], r[k - 1] * shape[k - 1])
  for k in range(d - 1, 0, -1):
    r[k] = min(r[k], r[k + 1] * shape[k])
  return r


class Space(object):
  """The tangent space at an Arg.

  cond: how much errors of the cores are amplified in the directions of the
  space (inf if the point is not regular, so the space is not well defined).
  """

  def __init__(self, x):
    self.n, self.m = x.n, x.m
    shape = [a * b for a, b in zip(x.n, x.m or [1] * len(x.n))]
    self.shape = shape
    d = len(shape)
    self.r = generic_ranks(x.r, shape)
    z = interleave(x.d, x.n, x.m)
    self.left, self.right, self.cond = [None], [None], 1.0
    for k in range(1, d):
      u, s, v = np.linalg.svd(z.reshape(core.prod(shape[:k]), -1),
                              full_matrices=False)
      r = self.r[k]
      self.left.append(u[:, :r])
      self.right.append(v[:r])
      low = s[r - 1]
      if low <= 1e-4 * s[0] or not np.isfinite(low) or low == 0:
        self.cond = np.inf
      else:
        self.cond = max(self.cond, x.q / low)

  def project(self, y):
    """Projection of the dense value."""
    z = interleave(y, self.n, self.m)
    shape = self.shape
    d = len(shape)
    total = 0.0
    for k in range(d):
      t = z.reshape(core.prod(shape[:k]), shape[k], -1)
      if k > 0:
        u = self.left[k]
        t = np.einsum('ab,cb,cij->aij', u, u, t)
      if k < d - 1:
        v = self.right[k + 1]
        t = np.einsum('iaj,rj,rk->iak', t, v, v)
      total = total + t.reshape(shape)
      if k < d - 1:
        u, v = self.left[k + 1], self.right[k + 1]
        t = z.reshape(core.prod(shape[:k + 1]), -1)
        total = total - (u @ (u.T @ t @ v.T) @ v).reshape(shape)
    return deinterleave(total, self.n, self.m)
