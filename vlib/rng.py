"""Seeded, boundary-biased random values."""
import random

U16_EDGE = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 9, 10, 99, 100, 999, 1000, 1001,
            9999, 10000]
U32_EDGE = U16_EDGE + [0x10000, 0x10001, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 99999, 100000, 999999, 1000000, 10 ** 9 - 1, 10 ** 9]
U64_EDGE = U32_EDGE + [0x100000000, 0x100000001, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1,
                       (1 << 64) - 2, (1 << 64) - 1, 10 ** 12, 10 ** 15 - 1, 10 ** 18]
S64_EDGE = [0, 1, -1, -2, 999, 1000, 1023, 4095, 4096, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, -0x80000000,
            -0x80000001, -0x100000000, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 1 << 40, -(1 << 40), 10 ** 9, -10 ** 12]

ASCII_SPECIAL = "{}%\"',;:\\/\n\r\t #$&()[]<>|=+-.!@^~`*?_"
UNI = "\u00e9\u00df\u0130\u0131\u03a9\u05d0\u0416\u4e2d\uff21\u2028\ufeff\ufffe\uffff\u0660\u00b2\ud7ff\ue000\u0100\u0d00\u0a00"
ASTRAL = "\U00010000\U0001f600\U0010ffff\U0001d54f"
LONE = "\ud800\udbff\udc00\udfff"


class R(random.Random):
    """random.Random with biased generators."""
    INTS, STRS = [], []      # constants that are new in the code under test (vlib/dictionary.py)

    def __new__(cls, *a):
        self = super().__new__(cls, *a)
        self.seen_ints, self.seen_strs = [], []
        return self

    def mark(self):
        """All that decides what is drawn next, for rewind()."""
        return self.getstate(), list(self.seen_ints), list(self.seen_strs)

    def rewind(self, mark):
        self.setstate(mark[0])
        self.seen_ints[:], self.seen_strs[:] = mark[1:]

    @classmethod
    def derive(cls, *parts):
        return cls("/".join(str(p) for p in parts))

    # -- steering: values beside new constants, and values that were used before (coincidences)
    def hint(self, lo, hi):
        """A value in lo..hi at or beside a new constant, or None."""
        if not self.INTS or self.random() > .2:
            return None
        c = self.choice(self.INTS)
        k = self.random()
        if k < .5:
            c += self.choice([0, 1, -1])
        elif k < .6:
            c += self.choice([2, -2, 4, -4, 8, c, -c // 2])
        elif k < .7:
            c = -c
        elif k < .85 and 1 <= c < hi:
            c *= self.randint(1, max(1, min(hi // c, 1 << 20)))
        return c if lo <= c <= hi else None

    def _keep(self, v, ring):
        if len(ring) < 48:
            ring.append(v)
        else:
            ring[int(self.random() * 48)] = v
        return v

    def again(self, lo, hi):
        """A number in lo..hi that was used before, or None."""
        if self.seen_ints and self.random() < .06:
            v = self.choice(self.seen_ints)
            if lo <= v <= hi:
                return v
        return None

    def many(self, options, most):
        """How many of something: usually one of the options, never more than most."""
        h = self.hint(0, most)
        if h is not None and self.random() < max(.02, min(1, 60.0 / (h + 1))):
            return h
        return self.choice(options)

    def hint_text(self, lo, keep=None):
        """A text that holds a new constant, or one that was used before; or None."""
        if self.STRS and self.random() < .12:
            s = self.choice(self.STRS)
            k = self.random()
            if k < .2:
                s = s.upper()
            elif k < .4:
                s = s.lower()
            if keep is None or keep(s):
                k = self.random()
                return s if k < .3 else self.word() + s if k < .6 else s + self.word() if k < .8 else self.word() + s + self.word()
        if self.seen_strs and self.random() < .06:
            s = self.choice(self.seen_strs)
            if len(s) >= lo and (keep is None or keep(s)):
                return s
        return None

    def chance(self, p):
        return self.random() < p

    def _int(self, bits, edges):
        v = self.hint(0, (1 << bits) - 1)
        if v is None:
            v = self.again(0, (1 << bits) - 1)
        if v is not None:
            return v
        k = self.random()
        if k < 0.35:
            return self.choice(edges)
        if k < 0.6:
            return self._keep(self.getrandbits(self.randint(1, bits)), self.seen_ints)
        return self._keep(self.getrandbits(bits), self.seen_ints)

    def u8(self):
        v = self.hint(0, 255)
        if v is not None:
            return v
        return self.choice([0, 1, 2, 0x7f, 0x80, 0xfe, 0xff]) if self.chance(.3) else self.getrandbits(8)

    def u16(self):
        return self._int(16, U16_EDGE)

    def u32(self):
        return self._int(32, U32_EDGE)

    def u64(self):
        return self._int(64, U64_EDGE)

    def s64(self):
        v = self.hint(-(1 << 63), (1 << 63) - 1)
        if v is None:
            v = self.again(-(1 << 63), (1 << 63) - 1)
        if v is not None:
            return v
        k = self.random()
        if k < .4:
            return self.choice(S64_EDGE)
        v = self.getrandbits(self.randint(1, 63))
        return -v if self.chance(.3) else v

    def bits(self, nbits):
        """A mask: none, one, few, many or all bits."""
        v = self.hint(0, (1 << nbits) - 1)
        if v is not None:
            return v | (1 << self.randrange(nbits)) if self.chance(.3) else v
        k = self.random()
        if k < .1:
            return 0
        if k < .35:
            return 1 << self.randrange(nbits)
        if k < .6:
            return (1 << self.randrange(nbits)) | (1 << self.randrange(nbits)) | (1 << self.randrange(nbits))
        if k < .9:
            return self.getrandbits(nbits)
        return (1 << nbits) - 1

    def noise(self, n):
        """n bytes for a field whose value must not matter."""
        k = self.random()
        if k < .25:
            return b"\0" * n
        if k < .4:
            return b"\xff" * n
        return self.randbytes(n)

    def span(self, most=1 << 52):
        """A length of time in 100 ns: any magnitude, or at the turn of seconds, minutes, hours or days."""
        k = self.random()
        if k < .45:
            v = self.getrandbits(self.randint(1, 52))
        else:
            unit = self.choice([1, 10, 60, 600, 3600, 36000, 86400]) * 10 ** 7
            v = unit * (self.randint(1, 61) if self.chance(.7) else self.getrandbits(self.randint(1, 16))) + self.choice([0, 0, 0, -1, 1, 10, -10])
        return max(0, v) if v <= most else v % (most + 1)

    def filetime(self):
        """A capture time from 1970 up to 9999, in 100 ns since 1601."""
        base = 116444736000000000
        k = self.random()
        if k < .1:
            secs = self.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 86399, 86400, 951782400, 1582934400,
                                2147483647, 2147483648, 4294967295, 4294967296, 253402300799])
        elif k < .4:
            day = self.randrange(0, 60000)
            secs = day * 86400 + self.choice([0, 1, 3599, 3600, 43199, 43200, 43201, 46799, 46800, 82800, 86399])
        elif k < .52:
            secs = self.randrange(1, 253402300800) if self.chance(.3) else self.randrange(1200000000, 2100000000)
            unit = self.choice([10, 60, 60, 3600, 3600, 86400])
            secs = max(0, secs - secs % unit + self.choice([0, 0, -1]))
        elif k < .9:
            secs = self.randrange(1200000000, 2100000000)
        else:
            secs = self.randrange(0, 253402300800)
        h = self.hint(0, 1 << 62)
        if h is not None:
            if base <= h < base + 253402300800 * 10 ** 7:
                return h
            if self.chance(.5):
                secs = secs - secs % 86400 + h % 86400
            else:
                return base + secs * 10 ** 7 + h % 10 ** 7
        v = self.again(0, 10 ** 7 - 1)
        frac = v if v is not None else self.choice([0, 1, 9, 10, 99, 100, 4999999, 5000000, 9999990, 9999999]) if self.chance(.4) \
            else self.randrange(10 ** 7)
        return base + secs * 10 ** 7 + frac

    def ticks(self):
        """A processor time: any 64 bits, or a likely length of time."""
        return self.u64() if self.chance(.5) else self.span()

    def duration(self):
        v = self.hint(0, (1 << 44) - 1)
        if v is not None:
            return v
        k = self.random()
        if k < .35:
            return self.choice([0, 1, 9, 10, 9999999, 10000000, 10000001, 599999999, 600000000, 36000000000,
                                863999999999, 864000000000, 1 << 32])
        return self.getrandbits(self.randint(1, 44))

    def length(self, small=12):
        """A small string length, biased to 0 and 1."""
        h = self.hint(0, 3000)
        if h is not None and self.random() < max(.05, min(1, 60.0 / (h + 1))):
            return h
        k = self.random()
        if k < .12:
            return 0
        if k < .25:
            return 1
        if k < .9:
            return self.randint(1, small)
        return self.randint(small, small * 8)

    def word(self, n=None):
        h = self.hint(1, 300) if n is None else None
        if h is not None and self.chance(.3):
            n = h
        n = self.randint(1, 10) if n is None else n
        return "".join(self.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-") for _ in range(n))

    def ascii(self, n=None, lo=1):
        if n is None:
            s = self.hint_text(lo, str.isascii)
            if s is not None:
                return s
        n = max(lo, self.length()) if n is None else n
        return self._keep("".join(self.choice(ASCII_SPECIAL) if self.chance(.25) else chr(self.randint(0x20, 0x7e)) for _ in range(n)),
                          self.seen_strs)

    def uni(self, n=None, lo=1, nul=False, lone=False):
        """n characters over the whole alphabet; surrogates and NUL only when asked for."""
        if n is None and not nul and not lone:
            s = self.hint_text(lo)
            if s is not None:
                return s
        n = max(lo, self.length()) if n is None else n
        out = []
        for _ in range(n):
            k = self.random()
            if k < .45:
                out.append(chr(self.randint(0x20, 0x7e)))
            elif k < .55:
                out.append(self.choice(ASCII_SPECIAL))
            elif k < .7:
                out.append(self.choice(UNI))
            elif k < .8:
                out.append(self.choice(ASTRAL))
            elif k < .85 and lone:
                out.append(self.choice(LONE))
            elif k < .88 and nul:
                out.append("\0")
            else:
                c = self.randint(1, 0xffff)
                out.append("x" if 0xd800 <= c < 0xe000 else chr(c))
        s = "".join(out)
        return s if nul or lone else self._keep(s, self.seen_strs)

    def path(self):
        k = self.random()
        if k < .06:
            return ""
        if k < .5:
            sep = "\\"
            s = self.hint_text(1)
            if s is not None:
                return s if self.chance(.5) else sep.join(["C:", s]) if self.chance(.5) else sep.join(["HKLM", self.word(), s])
            return self.choice(["C:", "\\Device\\X", "HKLM", "HKCU", "D:"]) + "".join(
                sep + self.word() for _ in range(self.randint(0, 5))) + (sep if self.chance(.15) else "")
        if k < .75:
            return self.ascii()
        return self.uni()
