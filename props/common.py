"""Shared helpers of the property modules (no contracts here)."""
import numpy as np
from vc.contract import SkipSample
from vc.terms import Unsupported
from weatherbenchX import binning
from weatherbenchX import weighting


class AnyWeighting(weighting.Weighting):
  def __init__(self, h):
    self.h = h

  def weights(self, statistic):
    return self.h.da


class AnyBinning(binning.Binning):
  def __init__(self, h, name):
    super().__init__(name)
    self.h = h

  def create_bin_mask(self, statistic):
    return self.h.da


def binary_gen(rng, shape):
  x = rng.integers(0, 2, shape) * (1.0 if rng.random() < 0.7 else 2.5)
  return np.where(rng.random(shape) < 0.25, np.nan, x)


def truth(b, x):
  """The event a 0/1 (or other numeric) value stands for."""
  return ~b.eq(x, 0.0)


def miss(b, *xs):
  r = ~b.true()
  for x in xs:
    r = r | b.isnan(x)
  return r


def one(b, c):
  return b.where(c, b.f(1.0), b.f(0.0))


def count(b, h, i, m, skipna):
  return b.sum(i, [m], lambda j: one(b, ~b.isnan(h[j]))) if skipna else b.size(m)


def mean(b, h, i, m, skipna):
  """Mean over (present) members; missing when a member is missing and not skipped, or when none is present."""
  if not skipna:
    return b.sum(i, [m], lambda j: h[j]) / b.size(m)
  return b.sum(i, [m], lambda j: b.where(b.isnan(h[j]), b.f(0.0), h[j])) / count(b, h, i, m, True)


def var(b, h, i, m, skipna):
  """Unbiased variance: squared deviations from the mean over n - 1 (missing for fewer than two)."""
  mu = mean(b, h, i, m, skipna)
  n = count(b, h, i, m, skipna)
  def dev(j):
    d = h[j] - mu
    return b.where(b.isnan(h[j]), b.f(0.0), d * d) if skipna else d * d
  v = b.sum(i, [m], dev) / (n - 1.0)
  return b.where(n > 1.0, v, b.f(float('nan'))) if skipna else v


def private(b, obj, name):
  """A name that is not part of the interface: nothing is claimed where it does not exist."""
  try:
    return getattr(obj, name)
  except AttributeError:
    if b.symbolic:
      raise Unsupported(f'no {name}')
    raise SkipSample()


SIDES = ('predictions', 'targets')


def masked_pair(side, p, t, m):
  """The two arrays, one of them with the mask as a coordinate."""
  if side == 'predictions':
    return p.assign_coords(mask=m.da), t
  return p, t.assign_coords(mask=m.da)


def mask_kept(r, out, m, dims):
  """The statistic carries the mask of its inputs, as a masked aggregation needs."""
  if r.check('mask is kept', 'mask' in out.coords) is not False and 'mask' in out.coords:
    r.array('mask', out.coords['mask'], dims, lambda i: m[i])
