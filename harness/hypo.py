"""Makes Hypothesis of the verification tools importable, and nothing else.

The interpreter of the repository has no Hypothesis.  The tools' site-packages
directory holds it, but also other packages that must not shadow those the
repository was built with, so only the names below are looked up there.
"""
import importlib.machinery
import os
import sys

NAMES = ('hypothesis', 'sortedcontainers', 'attr', 'attrs')
PLACES = ('/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' %
          sys.version_info[:2],)


class _Finder(object):

  @staticmethod
  def find_spec(name, path=None, target=None):
    top = name.split('.')[0]
    if path is None and (top in NAMES or top.startswith('_hypothesis_')):
      return importlib.machinery.PathFinder.find_spec(name, list(PLACES))
    return None


try:
  import hypothesis  # pylint: disable=unused-import
except ImportError:
  if not any(os.path.isdir(p) for p in PLACES):
    raise
  sys.meta_path.append(_Finder)
  import hypothesis  # pylint: disable=unused-import
