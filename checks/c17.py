"""Segment queue histories."""
from checks.common import *
from lib.term import style

STYLES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 53, 31, 35, 37, 40, 44, 90, 97, 100, 107]


class CHECK(Check):
    ID = 'C17'
    LIBRARY = True
    RULE = ('random histories of attaching (any lengths, styles, line ends, zero-length details) and detaching bytes or lines, '
            'forced or not, against a model queue; three printers observe every piece; non-trivial: distinct history that cuts a '
            'segment or meets WaitRequest or EOFError')

    def fixed(self):
        res = []
        segs = [[[31], b'abc'], [[], b'de'], [[1, 4, 44], b'f'], [[0], b'gh\n'], [[38, 5, 210, 48, 5, 16], b'ijklm'], [[31], b'n']]
        for n in range(1, 18):
            for m in range(1, 6):
                for force in (False, True):
                    res.append({'ops': [['a', segs[:3]], ['b', n, force], ['b', m, False], ['a', segs[3:]], ['b', m, force], ['l', force], ['b', n, True]]})
        for force in (False, True):
            for j in range(len(segs)):
                res.append({'ops': [['l', force], ['a', segs[j:]], ['l', force], ['l', force], ['a', segs[:j]], ['l', force], ['l', True]]})
        # thousands of pieces pending
        one = [[[31], b'ab'], [[], b'c'], [[1, 44], b'd']]
        for k in (400, 3000, 7000):
            for force in (False, True):
                res.append({'ops': [['a', one, k], ['l', force], ['a', [[[4], b'x\n']]], ['l', force], ['a', segs], ['l', True]], 'big': True})
                res.append({'ops': [['a', one, k], ['b', 4 * k - 2, force], ['a', one, 2], ['b', 9, False], ['b', 9, True]], 'big': True})
                res.append({'ops': [['a', one, k], ['b', 4 * k + 1, force], ['a', segs], ['b', 5, force], ['l', force]], 'big': True})
        for force in (False, True):
            res.append({'ops': [['a', one, 12000], ['b', 35990, force], ['b', 9, force], ['l', force], ['a', segs], ['l', True]], 'big': True})
            for n in (30, 65530, 131070, 262140):
                long_ = [[[33], b'0123456789abcdef' * (1 + n // 16) + b'tail of it']]
                res.append({'ops': [['a', one], ['a', long_], ['b', n, force]] + [['b', 7, force]] * 4 + [['a', segs[:4]], ['l', force]], 'big': True})
        return res

    def segment(self, rng, details):
        codes = []
        for _ in range(gen.pick(rng, 0, 1, 1, 2, 3)):
            r = rng.random()
            if r < .2:
                codes += [38, 5, rng.randrange(256)]
            elif r < .4:
                codes += [48, 2] + [rng.randrange(256) for _ in range(3)]
            else:
                codes.append(rng.choice(STYLES))
        r = rng.random()
        if r < .03:
            codes = [0] * rng.randint(1, 2)
        elif r < .1:
            codes.insert(rng.choice([0, 0, len(codes)]), 0)
        elif r < .13:
            codes += rng.choice([[38, 5, 0], [48, 5, 0], [38, 2, 0, 0, 0], [48, 2, 0, 0, 7]])
        if details and rng.random() < .3:
            return [codes, b'', ''.join(rng.choice('⢸⡇DETAILS') for _ in range(rng.randrange(1, 4)))]
        n = gen.pick(rng, 1, 1, 2, 3, rng.randint(1, 20), rng.randint(1, 300))
        raw = bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(n))
        if rng.random() < .2:
            raw = raw[:-1] + b'\n'
        return [codes, raw]

    def generate(self, rng, i):
        ops = []
        details = rng.random() < .4
        lines = rng.random()
        for _ in range(gen.pick(rng, rng.randint(1, 8), rng.randint(1, 60))):
            r = rng.random()
            if r < .45:
                ops.append(['a', [self.segment(rng, details) for _ in range(gen.pick(rng, 0, 1, 1, 1, 2, 3, 5))]])
            elif r < .45 + .55 * lines:
                ops.append(['l', rng.random() < .4])
            else:
                ops.append(['b', gen.pick(rng, 1, 1, 2, 3, 4, 16, rng.randint(1, 100), rng.randint(1, 2000)), rng.random() < .4])
        return {'ops': ops}

    def judge(self, case):
        from kolombos.byteio import WaitRequest
        from kolombos.byteio.segment import Segment, SegmentBuffer, SegmentPrinter
        from kolombos.settings import SettingsManager
        from pytermor import SequenceSGR
        SettingsManager.init()
        buf = SegmentBuffer()
        printers = [SegmentPrinter(True, False, lambda s: s.processed), SegmentPrinter(False, False, lambda s: s.raw.hex()),
                    SegmentPrinter(True, True, lambda s: s.processed), SegmentPrinter(False, True, lambda s: s.type_label * s.data_len)]
        queue = []           # [style, type, raw, processed] not detached yet; consistent ones are cut
        last = 0
        special = False
        num = 0
        ops = case['ops'] + [['b', 7, False], ['b', 3, True]] + [['b', 1 << 30, True]] * 2 + [['l', True]]
        for step, op in enumerate(ops):
            pending = sum(len(q[2]) for q in queue)
            what = 'step %d %s: ' % (step + 1, clip(op, 120))
            if op[0] == 'a':
                add_ = []
                for s in op[1] * (op[2] if len(op) > 2 else 1):
                    raw = s[1]
                    proc = s[2] if len(s) > 2 else raw.decode()
                    num += 1
                    t = 'PSCEUI'[num % 6]
                    add_.append(Segment(SequenceSGR(*s[0]), t, raw, proc))
                    queue.append([style(*s[0]) if s[0] else DEFAULT, t, raw, proc])
                buf.attach(*add_)
                self.count('attached_segments', len(add_))
            else:
                try:
                    got = buf.detach_bytes(op[1], op[2], printers) if op[0] == 'b' else buf.detach_line(op[1], printers)
                except WaitRequest:
                    got = 'wait'
                except EOFError:
                    got = 'eof'
                special |= isinstance(got, str)
                if op[0] == 'b':
                    n, force = op[1], op[2]
                    if isinstance(got, str):
                        self.count('answers_' + got)
                        if force and queue or got == 'wait' and (force or n <= pending):
                            self.fail(what + '%s although %d of %d bytes are there' % (got, pending, n))
                        if got == 'eof' and queue:
                            self.fail(what + 'end of data although %d segments are left' % len(queue))
                    else:
                        if not force and n > pending:
                            self.fail(what + '%r although only %d bytes are there' % (got[1], pending))
                        if not queue:
                            self.fail(what + '%r although nothing is left' % (got,))
                        if not force or queue:
                            last = self.take(queue, got, min(n, pending), what)
                else:
                    force = op[1]
                    upto = next((k for k, q in enumerate(queue) if '\n' in q[3]), None)
                    if isinstance(got, str):
                        self.count('answers_line_' + got)
                        if upto is not None:
                            self.fail(what + '%s although a complete line is there' % got)
                        if force and (queue or got == 'wait'):
                            self.fail(what + '%s although %d segments are left' % (got, len(queue)))
                        if got == 'eof' and pending:
                            self.fail(what + 'end of data although %d bytes are left' % pending)
                    else:
                        if upto is None and not force:
                            self.fail(what + '%r although there is no complete line' % (got[0],))
                        if not queue:
                            self.fail(what + '%r although nothing is left' % (got,))
                        take = queue if upto is None else queue[:upto + 1]
                        chars = sum(len(q[3]) for q in take)
                        last = self.take(queue, got, sum(len(q[2]) for q in take), what, chars)
            if buf.last_detached_data_len != last:
                self.fail(what + 'last detached length is %r, %d bytes were detached' % (buf.last_detached_data_len, last))
            left = sum(len(q[2]) for q in queue)
            if buf.data_len != left:
                self.fail(what + 'pending length is %r, it is %d' % (buf.data_len, left))
            self.count('operations_observed')
        if queue:
            self.fail('left at the end: %s' % clip(queue))
        if special or self.cut_:
            self.nontrivial(case['ops'])

    cut_ = False

    def take(self, queue, got, n, what, chars=None):
        """Check a piece of n bytes against the queue and remove it from there."""
        if not isinstance(got, tuple) or len(got) != 4:
            self.fail(what + 'answer %r for 4 printers' % (got,))
        s = Screen(got[0])
        if s.bad:
            self.fail(what + s.bad[0])
        if s.final != DEFAULT:
            self.fail(what + 'piece %r does not close its styles' % got[0])
        cs = []
        for k, ln in enumerate(s.lines):
            cs += cells(ln)
            if k < len(s.lines) - 1:
                cs.append(('\n', None))
        if '\x1b' in got[2] or '\x1b' in got[1] or '\x1b' in got[3]:
            self.fail(what + 'raw sequence in %r' % (got[1:],))
        want_c, want_r, want_t = [], b'', ''
        left = n
        pos = 0
        self.cut_ = False
        while queue:
            q = queue[0]
            if left == 0 and len(q[2]):
                break
            if left == 0 and len(want_c) >= len(cs):
                break          # zero-length segments can go with either piece, as a whole
            k = min(left, len(q[2]))
            p = q[3] if k == len(q[2]) else q[3][:k]
            want_c += [(ch, q[0]) for ch in p]
            want_r += q[2][:k]
            want_t += q[1] * k
            left -= k
            if k == len(q[2]):
                queue.pop(0)
            else:
                self.cut_ = True
                q[2], q[3] = q[2][k:], q[3][k:]
                break
        if got[1] != want_r.hex():
            self.fail(what + 'data %s, expected %s' % (clip(got[1]), clip(want_r.hex())))
        if len(cs) != len(want_c) or any(a[0] != b[0] or a[0] != '\n' and a[1] != b[1] for a, b in zip(cs, want_c)):
            self.fail(what + 'printed %s, expected %s' % (clip(cs), clip(want_c)))
        if chars is not None and len(cs) < chars:
            self.fail(what + 'line %r is not complete' % got[0])
        if got[3] != want_t:
            self.fail(what + 'types %s, expected %s' % (clip(got[3]), clip(want_t)))
        self.count('pieces_observed')
        self.count('bytes_observed', n)
        return n
