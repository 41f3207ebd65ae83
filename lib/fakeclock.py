"""Control over the wall clock and time zone of this process.

The clock is replaced below Python (in libc), so that it does not matter by
which function the code under test finds out what time it is.
"""
import ctypes
import datetime
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EPOCH = datetime.datetime(1970, 1, 1)


def restart():
    """Run this program again with the replaced clock, if it is not yet."""
    lib = os.environ.get('DSCHCHECK_CLOCK')
    if lib:
        # Loaded already, so the file is not needed any more.
        try:
            os.unlink(lib)
            os.rmdir(os.path.dirname(lib))
        except OSError:
            pass
        os.environ.pop('LD_PRELOAD', None)
        return
    folder = tempfile.mkdtemp(prefix='dschcheck-clock-')
    lib = os.path.join(folder, 'fakeclock.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', lib,
                    os.path.join(HERE, 'fakeclock.c')], check=True)
    env = dict(os.environ, LD_PRELOAD=lib, DSCHCHECK_CLOCK=lib)
    os.execve(sys.executable, sys.orig_argv, env)


class Clock:
    """The wall clock; local time is UTC plus ``offset`` seconds."""

    def __init__(self):
        self._lib = ctypes.CDLL(None)
        self._lib.fakeclock_set.argtypes = [ctypes.c_longlong]
        self._lib.fakeclock_readings.restype = ctypes.c_longlong
        self.local = None
        self._tz = os.environ.get('TZ')

    def readings(self):
        return self._lib.fakeclock_readings()

    def zone(self, offset):
        """Set the time zone to a fixed offset (in seconds) east of UTC."""
        sign = '-' if offset >= 0 else '+'
        off = abs(offset)
        os.environ['TZ'] = 'XYZ%s%02d:%02d:%02d' % (
            sign, off // 3600, off // 60 % 60, off % 60)
        time.tzset()
        self.offset = offset

    def set(self, local):
        """Stop the clock at the given local date and time."""
        self.local = local
        delta = local - EPOCH - datetime.timedelta(seconds=self.offset)
        us = delta // datetime.timedelta(microseconds=1)
        self._lib.fakeclock_set(us * 1000)

    def off(self):
        self._lib.fakeclock_off()
        if self._tz is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self._tz
        time.tzset()

    def value(self, kind):
        """What a set_on_create field of some type has to hold now."""
        if kind == 'Date':
            return self.local.date()
        if kind == 'Time':
            return self.local.time()
        return self.local
