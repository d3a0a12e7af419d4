"""Uniformly random cases as sequences of choices, with shrinking.

Hypothesis prefers small and repeated cases.  The generators of gen.py work
with it and with `Choices`, which draws uniformly and remembers the numbers, so
that a failing case is shrunk by changing the sequence.
"""
import time


class Choices(object):

  def __init__(self, rng=None, numbers=()):
    self.rng = rng
    self.numbers = list(numbers)
    self.used = []

  def integer(self, lo, hi):
    k = len(self.used)
    if self.rng is not None:
      v = self.rng.randint(0, hi - lo)
    else:
      v = min(self.numbers[k], hi - lo) if k < len(self.numbers) else 0
    self.used.append(v)
    return lo + v


def shrink(make, numbers, failing, seconds):
  """Shortens and lowers the numbers as long as the made case keeps failing."""
  end = time.time() + seconds
  best = list(numbers)

  def attempt(new):
    c = Choices(numbers=new)
    case = make(c)
    if (len(c.used), c.used) >= (len(best), best) or not failing(case):
      return False
    best[:] = c.used
    return True

  progress = True
  while progress and time.time() < end:
    progress = False
    for size in (16, 8, 4, 2, 1):
      i = len(best) - size
      while i >= 0 and time.time() < end:
        if attempt(best[:i] + best[i + size:]):
          progress = True
        i -= size
    i = 0
    while i < len(best) and time.time() < end:
      for v in (0, best[i] // 2, best[i] - 1):
        if i < len(best) and 0 <= v < best[i] and \
            attempt(best[:i] + [v] + best[i + 1:]):
          progress = True
          break
      i += 1
