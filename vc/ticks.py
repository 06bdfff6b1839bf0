"""Times are modelled as integers: seconds since 1970-01-01."""
import numpy as np


def to_ticks(x):
  if isinstance(x, np.datetime64):
    return int(x.astype('datetime64[s]').astype('int64'))
  return int(x.astype('timedelta64[s]').astype('int64'))


def from_ticks(n, kind):
  if kind == 'M':
    return np.datetime64(int(n), 's').astype('datetime64[ns]')
  return np.timedelta64(int(n), 's').astype('timedelta64[ns]')
