"""Ownership of the nondeterminism of the code under test.

`install()` has to be called in a worker process before anything of quocslib is imported. It replaces the clock by a
virtual one (that only the harness moves), seeds the global random generators and silences stdout, so that an
execution of the code under test is a function of the choices of the harness alone.
"""
import datetime as _dt
import os
import sys
import time as _time

REPO_SRC = "/repo/src"
EPOCH = 1700000000.0   # 2023-11-14 22:13:20 UTC

_real_time = _time.time
_real_perf = _time.perf_counter
_real_sleep = _time.sleep
_real_localtime = _time.localtime
_real_strftime = _time.strftime
_real_gmtime = _time.gmtime
_RealDateTime = _dt.datetime


class Clock:
    def __init__(self):
        self.t = 0.0                # seconds since the epoch of the harness
        self.sleep_hook = None      # called instead of sleeping: hook(seconds)

    @property
    def now(self):
        return EPOCH + self.t

    def advance(self, seconds):
        self.t = round(self.t + seconds, 6)


CLOCK = Clock()


class VirtualDateTime(_RealDateTime):
    @classmethod
    def now(cls, tz=None):
        base = _RealDateTime(2023, 11, 14, 22, 13, 20, tzinfo=tz)
        d = base + _dt.timedelta(seconds=CLOCK.t)
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


class VirtualDate(_dt.date):
    @classmethod
    def today(cls):
        n = VirtualDateTime.now()
        return cls(n.year, n.month, n.day)


def _sleep(seconds):
    if CLOCK.sleep_hook is not None:
        CLOCK.sleep_hook(seconds)
    else:
        CLOCK.advance(seconds)


def _localtime(secs=None):
    return _real_gmtime(CLOCK.now if secs is None else secs)


def _gmtime(secs=None):
    return _real_gmtime(CLOCK.now if secs is None else secs)


def _strftime(fmt, t=None):
    return _real_strftime(fmt, _localtime() if t is None else t)


_installed = False


def install(quiet=True):
    """Take over the environment of this process."""
    global _installed
    if _installed:
        return
    _installed = True
    import random
    if quiet:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        sys.stdout = open(os.devnull, "w")
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import numpy as np
    import scipy
    import scipy.stats
    import scipy.optimize
    import scipy.linalg
    import scipy.special
    import packaging.version
    import logging
    np.random.seed(1)
    random.seed(1)
    np.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")
    _time.time = lambda: CLOCK.now
    _time.time_ns = lambda: int(CLOCK.now * 1e9)
    _time.perf_counter = lambda: CLOCK.now
    _time.perf_counter_ns = lambda: int(CLOCK.now * 1e9)
    _time.monotonic = lambda: CLOCK.now
    _time.monotonic_ns = lambda: int(CLOCK.now * 1e9)
    _time.process_time = lambda: CLOCK.now
    _time.sleep = _sleep
    _time.localtime = _localtime
    _time.gmtime = _gmtime
    _time.strftime = _strftime
    _time.ctime = lambda s=None: _time.asctime(_localtime(s))
    _dt.datetime = VirtualDateTime
    _dt.date = VirtualDate
    logging.time = _time
    logging.raiseExceptions = False


def real_time():
    return _real_time()


def real_sleep(s):
    _real_sleep(s)


def seed_globals(n):
    import random
    import numpy as np
    np.random.seed(n)
    random.seed(n)
