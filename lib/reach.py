"""Which lines of the code under test have run while monitors observed it. For the evidence only; no verdict depends on it."""
import mmap
import os
import sys
import types

TOOL = 4


class Reach:
    def __init__(self, root):
        self.root = root
        self.files = {}          # path -> (position in the map, number of lines)
        n = 0
        for pkg in ('kolombos', 'pytermor'):
            for base, dirs, files in sorted(os.walk(os.path.join(root, pkg))):
                for f in sorted(files):
                    if f.endswith('.py'):
                        p = os.path.join(base, f)
                        with open(p, 'rb') as h:
                            k = h.read().count(b'\n') + 2
                        self.files[p] = n, k
                        n += k
        self.map = mmap.mmap(-1, n + 1)          # shared with all processes forked later
        self.ok = False

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(TOOL, 'reach')
        except (AttributeError, ValueError):
            return
        where = {p: v[0] for p, v in self.files.items()}
        map_ = self.map
        disable = m.DISABLE

        def line(code, n):
            a = where.get(code.co_filename)
            if a is not None:
                map_[a + n] = 1
            return disable
        m.register_callback(TOOL, m.events.LINE, line)
        self.ok = True

    def on(self, yes):
        if self.ok:
            sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE if yes else 0)

    def lines(self, path):
        """Executable lines inside functions."""
        res = set()

        def walk(code, inside):
            if inside:
                res.update(n for _, _, n in code.co_lines() if n and n > code.co_firstlineno)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c, not c.co_flags & 0x2 == 0)
        with open(path, 'rb') as f:
            walk(compile(f.read(), path, 'exec'), False)
        return res

    def report(self):
        total = hit = 0
        missed = {}
        for p, (a, k) in sorted(self.files.items()):
            ls = self.lines(p)
            got = {n for n in ls if self.map[a + n]}
            total += len(ls)
            hit += len(got)
            if ls - got:
                missed[os.path.relpath(p, self.root)] = sorted(ls - got)
        return hit, total, missed
