"""Other surroundings for one run: clock, ids, names, randomness; and a monitor of the variables the application consults.

Run as: python world.py NUMBER FD arguments... (of the application). Consulted variables are reported to FD, one JSON line each."""
import json
import os
import runpy
import sys

# (seconds since epoch, minutes of the day are part of it), process id, user id, user, host, processors, seed
WORLDS = [
    (946684799, 1, 0, 'root', 'localhost', 1, 0),                     # end of 1999
    (1924991999 + 86400 * 45, 2, 1000, 'user', 'host.example', 2, 1),     # 2031
    (4107542400, 99999, 65534, 'nobody', 'x', 64, 2),                  # 2100
    (1709164800 + 43200, 4194303, 33, 'www-data', 'build-1', 3, 3),          # 29 February, noon
    (1726185600 + 3600 * 23 + 3599, 777, 0, 'имя', '', None, 4),            # Friday 13th, before midnight
    (1735689599, 5, 501, 'ci', 'ci', 128, 5),                          # 31 December
    (1711929600, 6, 0, 'root', 'a', 7, 6),                            # 1 April, midnight
    (0, 7, 0, 'root', 'b', 8, 7),                                     # the beginning
    (1600000000, 31337, 1, 'daemon', 'c', 9, 8),
    (2147483647 + 10, 8, 2, 'bin', 'd', 16, 9),                        # after 2038
]


def install(world):
    import time
    base, pid, uid, user, host, cpus, seed = WORLDS[world % len(WORLDS)]
    real = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}
    start = real['monotonic']()

    def now():
        return base + real['monotonic']() - start
    time.time = now
    time.time_ns = lambda: int(now() * 1e9)
    for n in ('monotonic', 'perf_counter', 'process_time'):
        setattr(time, n, lambda f=real[n]: f() + base)
        setattr(time, n + '_ns', lambda f=real[n]: int((f() + base) * 1e9))
    time.localtime = lambda s=None: real['localtime'](now() if s is None else s)
    time.gmtime = lambda s=None: real['gmtime'](now() if s is None else s)
    time.strftime = lambda f, t=None: real['strftime'](f, time.localtime() if t is None else t)
    time.ctime = lambda s=None: real['ctime'](now() if s is None else s)
    time.asctime = lambda t=None: real['asctime'](time.localtime() if t is None else t)

    import datetime

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())

    class Datetime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now(), tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(now())
    datetime.date, datetime.datetime = Date, Datetime

    import random
    random.seed(seed)
    random.Random = type('Random', (random.Random,), {'__init__': lambda self, x=seed: super(random.Random, self).__init__(x if x is not None else seed)})
    os.urandom = lambda n: bytes((seed * 37 + k * 11) & 255 for k in range(n))
    for n, v in (('getpid', pid), ('getppid', pid + 1), ('getuid', uid), ('geteuid', uid), ('getgid', uid), ('getegid', uid), ('getlogin', user), ('cpu_count', cpus),
                 ('getloadavg', (seed, seed * 2., .5)), ('getpgrp', pid)):
        setattr(os, n, lambda *a, v=v: v)
    u = os.uname()
    os.uname = lambda: os.uname_result((u.sysname, host, '%d.1' % seed, u.version, ('x86_64', 'aarch64', 'armv7l')[seed % 3]))
    import socket
    import platform
    import getpass
    import tempfile
    socket.gethostname = socket.getfqdn = lambda *a: host
    platform.node = lambda: host
    platform.machine = lambda: os.uname().machine
    platform.release = lambda: os.uname().release
    getpass.getuser = lambda: user
    tempfile.tempdir = None


def monitor(fd, roots):
    """Reports every variable read by code under roots, and the constants its value is compared with."""
    seen = set()

    def report(*x):
        if x not in seen:
            seen.add(x)
            os.write(fd, (json.dumps(x) + '\n').encode())

    def ours():
        f = sys._getframe(2)
        while f and (f.f_code.co_filename == __file__ or f.f_code.co_filename.endswith(('/os.py', '<frozen os>', '/_collections_abc.py', '<frozen _collections_abc>', '/collections/abc.py'))):
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(roots)

    class Value(str):
        name = ''

        def note(self, other):
            for o in other if isinstance(other, (tuple, list, set, frozenset, dict)) else (other,):
                if isinstance(o, str):
                    report('value', self.name, str(o))

        def __eq__(self, other):
            self.note(other)
            return str.__eq__(self, other)

        def __ne__(self, other):
            self.note(other)
            return str.__ne__(self, other)

        __hash__ = str.__hash__

        def __contains__(self, other):
            self.note(other)
            return str.__contains__(self, other)

    def derived(n):
        f = getattr(str, n)

        def g(self, *a):
            for x in a:
                self.note(x)
            r = f(self, *a)
            if isinstance(r, str):
                r = Value(r)
                r.name = self.name
            return r
        return g
    for n in ('startswith', 'endswith', 'find', 'index', 'count', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'casefold', 'title', 'replace', '__getitem__', 'removeprefix', 'removesuffix', 'partition', 'split'):
        setattr(Value, n, derived(n))

    cls = type(os.environ)

    class Environ(cls):
        def __getitem__(self, key):
            mine = ours()
            if mine:
                report('read', os.fsdecode(key))
            v = cls.__getitem__(self, key)
            if mine and isinstance(v, str):
                v = Value(v)
                v.name = key
            return v

        def __contains__(self, key):
            if ours():
                report('read', os.fsdecode(key))
            return cls.__contains__(self, key)
    os.environ.__class__ = Environ
    if hasattr(os, 'environb'):
        os.environb.__class__ = Environ


if __name__ == '__main__':
    n, fd = int(sys.argv[1]), int(sys.argv[2])
    sys.argv[:3] = ['kolombos']
    sys.path.pop(0)
    import importlib.util
    roots = tuple(os.path.dirname(os.path.realpath(importlib.util.find_spec(m).origin)) + '/' for m in ('kolombos', 'pytermor'))
    if n >= 0:
        install(n)
    if fd >= 0:
        monitor(fd, roots)
    sys.argv[0] = os.path.join(roots[0], '__main__.py')
    runpy.run_module('kolombos', run_name='__main__', alter_sys=True)
