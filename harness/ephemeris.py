"""A stand-in for the de421 kernel (absent here).

The Sun seen from the Earth is ERFA's; the barycentres it is composed of are as far
away as the Sun, so that leaving one out is seen.
"""

import contextlib

import numpy as np

from harness import oracles


class _Segment:
    def __init__(self, function):
        self.function = function

    def compute(self, jd, jd2=0.0):
        jd = np.asarray(jd, float) + jd2
        rows = self.function(np.atleast_1d(jd)).T
        return rows if jd.ndim else rows[:, 0]


def _barycentre(jd):
    t = (jd - 2451545.0)[:, None]
    return np.concatenate([6e7 * np.cos(t / 700), 4e7 * np.sin(t / 900), 1e7 + 0 * t], axis=1)


def _earth(jd):
    t = (jd - 2451545.0)[:, None]
    return np.concatenate([4.6e7 * np.cos(t / 4.3), 4.6e7 * np.sin(t / 4.3), 3e7 + 0 * t], axis=1)


class Kernel:
    """[0, 10] Sun, [0, 3] Earth barycentre, [3, 399] Earth; Sun - Earth is ERFA's."""

    def __getitem__(self, key):
        sun = oracles.sun_itrs_gcrs
        functions = {
            (0, 10): lambda jd: _barycentre(jd),
            (0, 3): lambda jd: _barycentre(jd) - sun(jd) - _earth(jd),
            (3, 399): _earth,
        }
        return _Segment(functions[tuple(key)])

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


@contextlib.contextmanager
def installed():
    """Makes jplephem.spk.SPK.open return the stand-in."""
    from jplephem.spk import SPK
    saved = SPK.__dict__["open"]
    saved_close = SPK.__dict__["close"]
    SPK.open = classmethod(lambda cls, path: Kernel())
    SPK.close = lambda self: None
    try:
        yield
    finally:
        SPK.open = saved
        SPK.close = saved_close
