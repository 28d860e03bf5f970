"""Generators: random parsers, texts sampled from them, mutations, shrinking."""
import random
from .model import SPEC
from . import cpp

LEAVES = ['one_char', 'digit', 'letter', 'alphanum', 'space', 'spaces',
          'digit_val', 'int_', 'lit_c', 'lit', 'range_c', 'range', 'one_of_c',
          'one_char_except_c', 'one_char_except', 'always_c', 'keyword',
          'keyword0']
ZERO_LEAVES = ['return_', 'fail', 'empty']
CONSUMING_LEAVES = [k for k in LEAVES]
COMBINATORS = [k for k in SPEC if k not in LEAVES and k not in ZERO_LEAVES
               and k not in ('recover', 'move_error')]

SEQ_KINDS = {'sequence', 'nth_of_c', 'nth_of', 'first_of', 'last_of'}
ONE_OF_KINDS = {'one_of', 'repeated_one_of', 'repeated_one_of1', 'one_of_c'}
OCE_KINDS = {'one_char_except', 'one_char_except_c'}

COMMON = [97, 98, 99, 48, 49, 57, 32, 43, 40, 41]
RARE = [10, 13, 9, 65, 90, 122, 95, 45, 120, 47, 58, 64, 91, 96, 123, 126]
WEIRD = [0, 1, 11, 12, 127, -128, -2, -61, 31, 33]


class Gen:
    def __init__(self, rng, limits, weird=0.04):
        self.r = rng
        self.lim = limits      # dict: seq, one_of, oce, apply
        self.weird = weird
        self.ids = 0
        self.rep_max = 12
        self.force = None      # kind of operand the root must get

    def char(self):
        x = self.r.random()
        if x < self.weird:
            return self.r.choice(WEIRD)
        if x < 0.3:
            return self.r.choice(RARE)
        return self.r.choice(COMMON)

    def val(self):
        return self.r.randint(0, 9)

    def pick(self, weights):
        ks = list(weights)
        return self.r.choices(ks, [weights[k] for k in ks])[0]

    def arity(self, kind):
        if kind == 'sequence_apply':
            return self.r.randint(1, self.lim['apply'])
        if kind in SEQ_KINDS:
            hi = self.lim['seq']
            lo = 1 if kind == 'sequence' else 0
            if self.r.random() < 0.93:
                lo = 1
        else:
            hi = self.lim['one_of']
            lo = 0 if self.r.random() < 0.05 else 1
        x = self.r.random()
        if x < 0.75:
            hi = min(hi, 4)
        elif x < 0.95:
            hi = min(hi, 8)
        return self.r.randint(lo, max(lo, hi))

    def parser(self, depth, weights=None, consuming=False, root=None):
        """A random parser of at most the given depth."""
        r = self.r
        if root:
            k = root
        elif depth <= 1 or r.random() < 0.12:
            if not consuming and r.random() < 0.12:
                k = r.choice(ZERO_LEAVES)
            else:
                k = r.choice(LEAVES)
        else:
            w = weights or {x: 1 for x in COMBINATORS}
            for _ in range(50):
                k = self.pick(w)
                if not consuming or k in self.can_consume:
                    break
            else:
                k = r.choice(LEAVES)
        return self.build(k, depth, weights, consuming)

    can_consume = set(LEAVES) | {
        'sequence', 'nth_of_c', 'nth_of', 'first_of', 'last_of', 'middle_of',
        'sequence_apply', 'iterate_c', 'iterate', 'token', 'one_of', 'foldl1',
        'foldl_reject_incomplete1', 'foldl_start_with_parser',
        'foldl_reject_incomplete_start_with_parser', 'foldr1',
        'foldr_reject_incomplete1', 'foldr_start_with_parser', 'repeated1',
        'repeated_reject_incomplete1', 'repeated_one_of1', 'transform',
        'transform_error', 'transform_error_message', 'change_error_message',
        'accept_when', 'always', 'entire_input', 'entire_input0'}

    ELEMENT = {'foldl', 'foldl1', 'foldl_reject_incomplete',
               'foldl_reject_incomplete1', 'foldl_start_with_parser',
               'foldl_reject_incomplete_start_with_parser', 'foldr', 'foldr1',
               'foldr_reject_incomplete', 'foldr_reject_incomplete1',
               'foldr_start_with_parser', 'repeated', 'repeated1',
               'repeated_reject_incomplete', 'repeated_reject_incomplete1'}

    def build(self, k, depth, weights, consuming):
        r = self.r
        made = []
        force, self.force = self.force, None

        def sub(c=False):
            nonlocal force
            if made and r.random() < 0.08:       # the same operand again
                x = r.choice(made)
                if x[1] or not c:
                    return x[0]
            want = None
            if force and (force in self.can_consume or not c) and r.random() < 0.6:
                want, force = force, None
            p = self.parser(depth - 1, weights, c, root=want)
            made.append((p, c))
            return p
        if k in ('one_of_c', 'one_char_except', 'one_char_except_c'):
            hi = self.lim['one_of'] - 1 if k == 'one_of_c' else self.lim['oce']
            if r.random() < 0.8:
                hi = min(hi, 4)
            lo = 0 if r.random() < 0.05 else 1
            return (k, tuple(self.char() for _ in range(r.randint(lo, hi))))
        if k in ('range', 'range_c'):
            a, b = self.char(), self.char()
            if r.random() < 0.9:
                a, b = min(a, b), max(a, b)
            return (k, a, b)
        if k in ('keyword', 'keyword0'):
            lo = 0 if (r.random() < 0.05 and not consuming) else 1
            cs = tuple(self.char() for _ in range(r.randint(lo, 5)))
            return (k, cs, self.val()) if k == 'keyword' else (k, cs)
        if k in SEQ_KINDS or k == 'sequence_apply':
            n = self.arity(k)
            if consuming:
                n = max(n, 1)
            ps = [sub() for _ in range(n)]
            if consuming:
                ps[r.randrange(n)] = sub(True)
            ps = tuple(ps)
            if k in ('nth_of_c', 'nth_of'):
                if r.random() < 0.9 and n:
                    i = r.randrange(n)
                else:
                    i = r.choice([-3, -1, n, n + 1, n + 7])
                return (k, i, ps)
            if k == 'sequence_apply':
                return (k, self.val(), ps)
            return (k, ps)
        if k in ('one_of', 'repeated_one_of', 'repeated_one_of1'):
            n = self.arity(k)
            ps = [sub(consuming or k != 'one_of') for _ in range(n)]
            if ps and r.random() < 0.35:      # share prefixes between alternatives
                base = ps[r.randrange(len(ps))]
                j = r.randrange(len(ps))
                if self.lim['seq'] >= 2 and depth > 1:
                    ps[j] = ('sequence', (base, self.parser(1, None, True)))
            return (k, tuple(ps))
        if k in ('iterate', 'iterate_c'):
            lo = 1 if consuming else 0
            return (k, sub(consuming), r.randint(lo, 5 if r.random() < 0.8 else 12))
        if k in self.ELEMENT:
            args = [k, sub(True)]
            if k.endswith('start_with_parser'):
                args.append(sub(consuming))
            elif SPEC[k][1:2] == 'v':
                args.append(self.val())
            if SPEC[k].endswith('f'):
                args.append(self.val())
            return tuple(args)
        if k == 'accept_when':
            x = 0 if force else r.random()
            m = r.randint(0, 9)
            if x < 0.15:
                return (k, sub(consuming), (r.choice(['true', 'false']),), m)
            leaf = (r.choice(['one_char', 'letter', 'digit', 'digit_val', 'int_',
                              'alphanum']),)
            if x < 0.6:
                a, b = self.char(), self.char()
                return (k, leaf, ('range', min(a, b), max(a, b)), m)
            n = r.randint(2, 5)
            return (k, leaf, ('mod', n, r.randrange(n)), m)
        args = [k]
        for sig in SPEC[k]:
            if sig == 'c':
                args.append(self.char())
            elif sig == 'i':
                args.append(r.choice([1, 2, 7, 300]))
            elif sig == 'P':
                args.append(sub(consuming))
            elif sig in 'vfgmw':
                args.append(self.val())
            else:
                raise AssertionError((k, sig))
        return tuple(args)

    # -------------------------------------------------------- texts
    def reps(self):
        r = self.r
        return r.randint(0, 4) if r.random() < 0.9 else r.randint(5, self.rep_max)

    def sample(self, p, fuel=40, rec=None):
        """A text p is likely to accept (best effort)."""
        r = self.r
        k = p[0]
        sub = lambda x: self.sample(x, fuel // 2, rec)
        if fuel <= 0:
            return []
        if k == 'one_char':
            return [self.char()]
        if k in ('digit', 'digit_val'):
            return [r.randint(48, 57)]
        if k == 'letter':
            return [r.choice([97, 98, 99, 65, 90, 122, r.randint(65, 90), r.randint(97, 122)])]
        if k == 'alphanum':
            return [r.choice([97, 65, 90, 122, 48, 57, r.randint(48, 57)])]
        if k == 'space':
            return [r.choice([32, 10, 13, 9])]
        if k == 'spaces':
            return [r.choice([32, 10, 13, 9]) for _ in range(r.randint(1, 3))]
        if k == 'int_':
            return [ord(c) for c in str(r.choice([0, 7, 10, 99, r.randint(0, 10**6)]))]
        if k in ('lit_c', 'lit', 'always_c'):
            return [p[1]]
        if k in ('range_c', 'range'):
            return [r.choice([p[1], p[2], r.randint(min(p[1], p[2]), max(p[1], p[2]))])]
        if k == 'one_of_c':
            return [r.choice(p[1])] if p[1] else []
        if k in ('one_char_except', 'one_char_except_c'):
            for _ in range(10):
                c = self.char()
                if c not in p[1]:
                    return [c]
            return [c]
        if k in ('keyword', 'keyword0'):
            return list(p[1])
        if k in ('return_', 'fail', 'empty'):
            return []
        if k in SEQ_KINDS or k == 'sequence_apply':
            return [c for x in p[-1] for c in sub(x)]
        if k == 'middle_of':
            return sub(p[1]) + sub(p[2]) + sub(p[3])
        if k in ('iterate', 'iterate_c'):
            return [c for _ in range(p[2]) for c in sub(p[1])]
        if k == 'token':
            return sub(p[1]) + [r.choice([32, 10, 13, 9]) for _ in range(r.randint(0, 2))]
        if k == 'one_of':
            return sub(r.choice(p[1])) if p[1] else []
        if k in ('repeated_one_of', 'repeated_one_of1'):
            if not p[1]:
                return []
            return [c for _ in range(self.reps()) for c in sub(r.choice(p[1]))]
        if k == 'foldr_start_with_parser':
            return [c for _ in range(self.reps()) for c in sub(p[1])] + sub(p[2])
        if k.endswith('start_with_parser'):
            return sub(p[2]) + [c for _ in range(self.reps()) for c in sub(p[1])]
        if k in self.ELEMENT:
            return [c for _ in range(self.reps()) for c in sub(p[1])]
        if k in ('look_ahead', 'if_', 'except', 'fail_at_first_char_expected'):
            return sub(p[1]) if r.random() < 0.6 else []
        if k in ('optional', 'optional0'):
            return sub(p[1]) if r.random() < 0.7 else []
        if k == 'rec':
            return self.sample(rec[p[1]], fuel // 2, rec)
        for sig, a in zip(SPEC[k], p[1:]):
            if sig == 'P':
                return sub(a)
        raise AssertionError(k)

    def mutate(self, s):
        r = self.r
        s = list(s)
        x = r.random()
        if x < 0.4:
            return s
        for _ in range(1 if x < 0.85 else r.randint(2, 4)):
            y = r.random()
            i = r.randint(0, len(s))
            if y < 0.3 and s:
                del s[min(i, len(s) - 1)]
            elif y < 0.5:
                s.insert(i, self.char())
            elif y < 0.7 and s:
                s[min(i, len(s) - 1)] = self.char()
            elif y < 0.85 and s:
                s = s[:i]
            elif s:
                j = r.randint(0, len(s))
                a, b = min(i, j), max(i, j)
                s[a:a] = s[a:b]
        return s

    def text(self, p, max_len, rec=None):
        s = self.mutate(self.sample(p, 40, rec))
        if self.r.random() < 0.35:
            s += [self.char() for _ in range(self.r.randint(1, 4))]
        return self.cap_digits(tuple(s[:max_len]))

    @staticmethod
    def cap_digits(s, most=9):
        """Digit runs must fit into int for int_ (checked separately in C12)."""
        out, run = [], 0
        for c in s:
            run = run + 1 if 48 <= c <= 57 else 0
            if run > most:
                continue
            out.append(c)
        return tuple(out)

    def position(self):
        r = self.r
        if r.random() < 0.6:
            return (1, 1, 0)
        return (r.choice([1, 2, 3, 7, 100, 99999]), r.choice([1, 2, 5, 80, 12345]),
                r.choice([0, 10, 13, 97, 32, -2]))


# ------------------------------------------------------------------ shrinking
def shrink_parser(p):
    """Smaller variants of p, most aggressive first."""
    if p[0] == 'rec':
        return
    for x in cpp.kids(p):
        yield x
    sig = SPEC[p[0]]
    for n, (sg, a) in enumerate(zip(sig, p[1:]), 1):
        rebuild = lambda b: p[:n] + (b,) + p[n + 1:]
        if sg in 'ZCs':
            for j in range(len(a)):
                yield rebuild(a[:j] + a[j + 1:])
        if sg == 'Z':
            for j, x in enumerate(a):
                for y in shrink_parser(x):
                    yield rebuild(a[:j] + (y,) + a[j + 1:])
        elif sg == 'P':
            for y in shrink_parser(a):
                yield rebuild(y)
        elif sg in 'vfgmw' and a != 0:
            yield rebuild(0)
        elif sg == 'i' and a not in (0, 1):
            yield rebuild(a - 1 if a > 0 else a + 1)
        elif sg == 'c' and a != 97:
            yield rebuild(97)
        elif sg in 'Cs':
            for j, x in enumerate(a):
                if x != 97:
                    yield rebuild(a[:j] + (97,) + a[j + 1:])
    if p[0] not in ('one_char',) and not list(cpp.kids(p)) and p[0] != 'lit_c':
        yield ('one_char',)
        yield ('lit_c', 97)


def shrink_text(s):
    n = len(s)
    size = n
    while size >= 1:
        for i in range(0, n - size + 1, max(1, size)):
            yield s[:i] + s[i + size:]
        size //= 2
    for i, c in enumerate(s):
        if c != 97:
            yield s[:i] + (97,) + s[i + 1:]


def rng_for(seed, *names):
    return random.Random('|'.join([str(seed)] + [str(n) for n in names]))
