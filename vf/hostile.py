# -*- coding: utf-8 -*-
"""Damaged objects: variants of encoded objects, many to a file."""
import struct

from . import fmt, libio

PLAIN = [c for c in sorted(fmt.KINDS) if c not in (b'ABIN', b'BINF')]
SPECIAL8 = [0, 1, 2, 3, 4, 5, 0x20, 0x41, 0x45, 0x42, 0x47, 0x48, 0x4c, 0x4f, 0x7f, 0x80, 0xfe, 0xff]
SPECIAL = {2: [0, 1, 2, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x100],
           4: [0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000, 0x1000000, 0x40000000]}


class Bed(object):
    """a file with a root and one object of every kind, to refer to and take bytes from;
    further chunks are appended to it"""

    def __init__(self, rng, bo):
        self.bo = bo
        self.chunks = []
        self.ids = {}

        def none(field, cls, r):
            return None
        for c in [b'BINF'] + PLAIN:
            o = fmt.generate(c, rng, none, maxlist=1)
            self.ids[c] = len(self.chunks) + 1
            self.chunks.append((c, fmt.encode(o, bo, {})))
        self.fixed = len(self.chunks)
        self.exts = {}
        self.whole = {}
        self.kind = None

    def pick(self, field, cls, r):
        if r.random() < 0.3:
            return None
        pool = libio.FIELD_KINDS.get(field, ())
        if not pool:
            return None
        return fmt.Ref(self.ids[r.choice(pool)])

    def make(self, rng, cls, **kw):
        """a valid object: (model, bytes, marks)"""
        o = fmt.generate(cls, rng, self.pick, **kw)
        data, marks = fmt.encode_marks(o, self.bo, dict((i, i) for i in fmt.refs_of(o)))
        self.kind = cls
        self.learn(cls, data, marks)
        if rng.random() < 0.5:
            x = fmt.generate(cls, rng, self.pick, maxlist=2, full=True)
            self.learn(cls, *fmt.encode_marks(x, self.bo, dict((i, i) for i in fmt.refs_of(x))))
        return o, data, marks

    def learn(self, cls, data, marks):
        """keeps the extensions of an object, whole and in part"""
        starts = sorted(set(m[1] for m in marks) | set([len(data)]))
        ext = [m[1] - 1 for m in marks if m[0] == 'exttag']
        for p in ext:
            for q in [x for x in starts if x > p + 1][:8]:
                self.exts.setdefault(cls, set()).add(data[p:q])
        for p, q in ext_spans(data, marks):
            self.whole.setdefault(cls, set()).add(data[p:q])

    def ext(self, rng, cls=None):
        if rng.random() < 0.3 or not self.exts:
            return bytes(bytearray([1, rng.randint(1, 12), rng.choice([65, 66, 67, 68, 69, 70, 71, 72, 75, 76, 77, 78, 79])] +
                                   [rng.choice(SPECIAL8) for x in range(rng.choice([1, 2, 2, 4, 4, 8]))]))
        c = rng.choice(sorted(self.exts))
        return rng.choice(sorted(self.exts[c]))

    def add(self, cls, data):
        self.chunks.append((cls, data))
        return len(self.chunks)

    def data(self, **kw):
        out = [fmt.build_header(self.bo, len(self.chunks), 1, **kw)]
        for c, d in self.chunks:
            out.append(fmt.frame(c, d, self.bo))
        return b''.join(out)

    def position(self, n):
        """offset of chunk n (1-based)"""
        p = len(fmt.build_header(self.bo, len(self.chunks), 1))
        for c, d in self.chunks[:n - 1]:
            p += 8 + len(d)
        return p


def ext_spans(data, marks):
    """where each extension of an object starts and ends"""
    out = []
    starts = [m[1] - 1 for m in marks if m[0] == 'exttag']
    ends = [m[1] for m in marks if m[0] == 'tag' and m[1] < len(data) and bytearray(data)[m[1]] in (2, 3)]
    for p in starts:
        q = [x for x in starts + ends if x > p]
        if q:
            out.append((p, min(q)))
    return out


HOWS = ['bit', 'byte', 'word', 'cut', 'extend', 'insert', 'delete', 'splice', 'mark', 'mark', 'mark', 'swap', 'multi', 'other', 'ext', 'ext', 'exttwice']


def mutate(rng, data, marks, bed, how=None):
    """(how, damaged data)"""
    how = how or rng.choice(HOWS)
    b = bytearray(data)
    n = len(b)
    e = '<' if bed.bo == 'little' else '>'
    if not n:
        return 'extend', bytes(b + bytearray(rng.getrandbits(8) for x in range(rng.randint(1, 9))))
    if how == 'multi':
        for x in range(rng.randint(2, 6)):
            h, d = mutate(rng, bytes(b), marks, bed, rng.choice(['bit', 'byte', 'word', 'insert', 'delete', 'splice']))
            b = bytearray(d)
        return how, bytes(b)
    if how == 'bit':
        b[rng.randrange(n)] ^= 1 << rng.randrange(8)
    elif how == 'byte':
        b[rng.randrange(n)] = rng.choice(SPECIAL8) if rng.random() < 0.7 else rng.getrandbits(8)
    elif how == 'word':
        w = rng.choice([2, 4])
        if n >= w:
            p = rng.randrange(n - w + 1)
            v = rng.choice(SPECIAL[w] + [n, n + 1, max(0, n - p), n - p + 1])
            b[p:p + w] = struct.pack(e + ('H' if w == 2 else 'I'), v & (0xffff if w == 2 else 0xffffffff))
    elif how == 'cut':
        del b[rng.randrange(n):]
    elif how == 'extend':
        b += bytearray(rng.choice(SPECIAL8) for x in range(rng.choice([1, 2, 3, 4, 9, 40])))
    elif how == 'insert':
        p = rng.randrange(n + 1)
        b[p:p] = bytearray(rng.choice(SPECIAL8) for x in range(rng.choice([1, 2, 4])))
    elif how == 'delete':
        p = rng.randrange(n)
        del b[p:p + rng.choice([1, 2, 4, 8])]
    elif how == 'splice':
        d = rng.choice(bed.chunks)[1]
        if d:
            p = rng.randrange(len(d))
            q = rng.randrange(n + 1)
            k = rng.randint(1, 12)
            b[q:q + rng.choice([0, k])] = d[p:p + k]
    elif how == 'swap':
        p, q = rng.randrange(n), rng.randrange(n)
        b[p], b[q] = b[q], b[p]
    elif how == 'other':
        b = bytearray(rng.choice(bed.chunks)[1])
    elif how == 'exttwice':
        # extensions of this kind of object, in any number and order, where extensions belong
        spans = ext_spans(bytes(b), marks)
        pool = sorted(set(bytes(b[p:q]) for p, q in spans) | set(x for c in bed.whole for x in bed.whole[c] if c == bed.kind))
        if not spans and marks and pool:
            spans = [(n - 1, n - 1)]
        if not pool:
            return mutate(rng, data, marks, bed, 'ext')
        p = rng.choice([x for y in spans for x in y])
        b[p:p] = b''.join(rng.choice(pool) for x in range(rng.choice([1, 1, 1, 2, 3])))
    elif how == 'ext':
        # an extension where none belongs, or one more
        spots = [m[1] for m in marks if m[0] == 'tag' and m[1] < n and b[m[1]] in (1, 2, 3)] or [n - 1]
        p = rng.choice(spots[-4:] if rng.random() < 0.5 else spots)
        b[p:p] = bytearray(bed.ext(rng))
        if rng.random() < 0.3:
            # and a list that is said to be empty
            cs = [m for m in marks if m[0] == 'count' and m[1] < p]
            if cs:
                m = rng.choice(cs)
                b[m[1]:m[2]] = bytearray(m[2] - m[1])
    elif how == 'mark':
        if marks:
            m = rng.choice(marks)
            p, w = m[1], m[2] - m[1]
            if w in (2, 4) and rng.random() < 0.6:
                b[p:p + w] = struct.pack(e + ('H' if w == 2 else 'I'), rng.choice(SPECIAL[w]))
            elif w:
                b[p + rng.randrange(w)] = rng.choice(SPECIAL8)
    return how, bytes(b)
