"""C01: dense materialisation."""
import t3f
from harness import core, gen
from harness.core import Arg

CHECK = core.Check('C01')


@CHECK.op('full', lambda draw: dict(x=gen.tt(draw, size=4000, maxd=7)), quick=1200)
def full(case):
  x = Arg(case['x'])
  core.expect_dense(t3f.full(x.tt), x.d, x.a, x.dtype, 'full')


@CHECK.op('full-overrank',
          lambda draw: dict(x=gen.tt(draw, maxr=9, size=600)), quick=300)
def full_overrank(case):
  full(case)
