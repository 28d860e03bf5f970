"""C03 characters, C04/C05 positions, C11 errors, C12 numbers, C18 outcomes."""
import itertools
from . import cpp, gen
from .engine import CFGS
from .gen import rng_for, COMBINATORS
from .model import advance, is_digit, is_letter, is_space, escape, INT_MAX, wrapped, user_msg
from .parse_case import ParseCase
from .probe import Probe, boxed, chars_escaped
from .checks_parse import cfgs, pick, random_cases, S, ShiftCase, arities, some

ALL = list(range(-128, 128))
NSU = 'boost::metaparse::util::'


# ------------------------------------------------------------------------ C03
class PredCase(Probe):
    """box, character: every predicate in its direct and curried forms"""
    NAMES = ['is_digit', 'is_lcase_letter', 'is_ucase_letter', 'is_letter', 'is_whitespace']

    def code(self, cfg, k):
        kind, c = self.d
        b = boxed(c, kind)
        out = []
        for n in self.NAMES:
            out.append('%s%s<%s >::type::value' % (NSU, n, b))
            out.append('boost::mpl::apply_wrap1<%s%s<>, %s >::type::value' % (NSU, n, b))
            out.append('%s%s<>::type::apply<%s >::type::value' % (NSU, n, b))
        out.append('%sis_whitespace_c<%s>::type::value' % (NSU, cpp.ch(c)))
        return ' '.join('mpv::put_int(%s);' % o for o in out)

    def expect(self, cfg):
        c = self.d[1]
        v = [is_digit(c), 97 <= c <= 122, 65 <= c <= 90, is_letter(c), is_space(c)]
        out = []
        for x in v:
            out += [int(x)] * 3
        out.append(int(v[4]))
        return ''.join('%d ' % x for x in out)

    def shrinks(self):
        if self.d[0] != 'char_':
            yield PredCase('char_', self.d[1])

    def labels(self):
        yield 'predicates'


class RangeCase(Probe):
    """(type, lo, hi, item): in_range and in_range_c in all forms"""
    def code(self, cfg, k):
        t, lo, hi, x = self.d
        b = lambda v: 'boost::mpl::integral_c<%s,%d>' % (t, v)
        L, H, X = b(lo), b(hi), b(x)
        ir = NSU + 'in_range'
        out = ['%s<%s,%s,%s >::type::value' % (ir, L, H, X),
               '%s<%s,%s >::type::apply<%s >::type::value' % (ir, L, H, X),
               '%s<%s >::type::apply<%s,%s >::type::value' % (ir, L, H, X),
               '%s<>::type::apply<%s,%s,%s >::type::value' % (ir, L, H, X),
               '%s<%s >::type::apply<%s >::type::apply<%s >::type::value' % (ir, L, H, X),
               '%s<>::type::apply<%s >::type::apply<%s,%s >::type::value' % (ir, L, H, X),
               'boost::mpl::apply_wrap1<%s<%s,%s >, %s >::type::value' % (ir, L, H, X),
               '%sin_range_c<%s,%d,%d>::type::apply<%s >::type::value' % (NSU, t, lo, hi, X),
               'boost::mpl::apply_wrap1<%sin_range_c<%s,%d,%d>, mpv::lazy<%s > >::type::value' % (NSU, t, lo, hi, X)]
        return ' '.join('mpv::put_int((%s));' % o for o in out)

    def expect(self, cfg):
        t, lo, hi, x = self.d
        return '%d ' % (lo <= x <= hi) * 9

    def shrinks(self):
        t, lo, hi, x = self.d
        for f in ((lambda v: v // 2), (lambda v: v - 1 if v > 0 else v + 1)):
            if abs(lo) > 1:
                yield RangeCase(t, f(lo), hi, x)
            if abs(hi) > 1:
                yield RangeCase(t, lo, f(hi), x)
            if abs(x) > 1:
                yield RangeCase(t, lo, hi, f(x))

    def size(self):
        return sum(abs(v) for v in self.d[1:])

    def labels(self):
        yield 'in_range'


def char_cases(r, cfg, quick):
    """One-character parsers over all characters."""
    chars = [c for c in ALL if not (cfg.no_ff and c == -1)]
    for k in ('one_char', 'digit', 'letter', 'alphanum', 'space', 'digit_val'):
        yield ParseCase((k,), ())
        for c in chars:
            t = (c,) if c % 3 else (c, r.choice(chars))
            yield ParseCase((k,), t, (1, 1, 0) if c % 5 else (r.randint(1, 50), r.randint(1, 50), r.choice([0, 10, 13, 97])))
    for c in chars:
        for k in ('lit_c', 'lit'):
            yield ParseCase((k, c), (c,))
            o = r.choice([c ^ 1, c ^ 32, c ^ -128 if c < 0 else c - 128, r.choice(chars)])
            o = max(-128, min(127, o))
            if o in chars:
                yield ParseCase((k, c), (o,) + S('x'))
        yield ParseCase(('lit_c', c), ())
    for c in chars:
        for k in ('range_c', 'range'):
            lo, hi = max(-128, c - r.choice([0, 1, 3, 40])), min(127, c + r.choice([0, 1, 3, 40]))
            for x in {c, lo, hi, max(-128, lo - 1), min(127, hi + 1), r.choice(chars)}:
                if x in chars:
                    yield ParseCase((k, lo, hi), (x,))
    for c in chars:
        for k, hi in (('one_char_except', cfg.limits['oce']), ('one_char_except_c', cfg.limits['oce']),
                      ('one_of_c', cfg.limits['one_of'] - 1)):
            n = r.randint(0, hi)
            st = [r.choice(chars) for _ in range(n)]
            if st and r.random() < 0.7:
                st[r.randrange(n)] = c
            yield ParseCase((k, tuple(st)), (c,))
            if st:
                st = [x if x != c else (c + 1 if c < 126 else 5) for x in st]
                yield ParseCase((k, tuple(st)), (c, 98))


def set_sweep(cfg):
    """Set size x index of the member that is looked for."""
    base = tuple(range(33, 127))
    for k, kind in (('one_char_except', 'oce'), ('one_char_except_c', 'oce'), ('one_of_c', 'one_of')):
        for n in arities(cfg, kind, 26):
            if cfg.old and k == 'one_of_c' and n > cfg.hard[kind] - 1:
                continue
            for j in some(n):
                yield ParseCase((k, base[:n]), (base[j],))
            yield ParseCase((k, base[:n]), (-30,))
            yield ParseCase((k, base[:n]), (126,))
            yield ParseCase((k, base[:n]), ())


def C03(ctx):
    ctx.exhaustive = True
    ctx.rule = ('every character value (-128..127; the C++98 string cannot hold -1) and '
                'the empty input for each parameterless one-character parser and each '
                'predicate; every literal; ranges/sets around every character; every '
                'set size x member index. Non-trivial: ' + ParseCase.RULE + '; all predicate cases')
    pairs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C03', ctx.tier, cfg.name)
        pairs += [(cfg, c) for c in char_cases(r, cfg, ctx.quick()) if c.applicable(cfg)]
        pairs += pick(ctx, cfg, 'set', set_sweep(cfg), ctx.n(200, 10**9))
        for c in ALL:
            pairs.append((cfg, PredCase(r.choice(['char_', 'lazy', 'integral_c']), c)))
        for _ in range(ctx.n(120, 1000)):
            t = r.choice(['char', 'int', 'long', 'int'])
            w = 127 if t == 'char' else r.choice([20, 1000, 2**31 - 2])
            lo, hi = r.randint(-w, w), r.randint(-w, w)
            x = r.choice([lo, hi, lo - 1, hi + 1, r.randint(-w, w)])
            if t == 'char':
                x = max(-128, min(127, x))
            pairs.append((cfg, RangeCase(t, lo, hi, x)))
    ctx.evaluate(pairs, batch=400)


# ------------------------------------------------------------------------ C04
class PosOps(Probe):
    """start position, ((op, char, box) ...): next_char / next_line history"""
    def code(self, cfg, k):
        st, ops = self.d
        out = ['typedef %s p0; mpv::put_pos<p0>();' % (
            'boost::metaparse::start' if st == 'start' else
            'boost::metaparse::source_position<boost::mpl::int_<%d>,boost::mpl::int_<%d>,boost::mpl::char_<%d> >' % st)]
        for n, (op, c, bx) in enumerate(ops, 1):
            out.append('typedef boost::metaparse::%s<p%d, %s >%s p%d; std::printf(" "); mpv::put_pos<p%d>();' % (
                op, n - 1, boxed(c, bx), '::type' if n % 2 else '', n, n))
        return ' '.join(out)

    def expect(self, cfg):
        st, ops = self.d
        l, c, p = (1, 1, 0) if st == 'start' else st
        out = ['%d:%d:%d' % (l, c, p)]
        for op, ch, _ in ops:
            l, c = (l, c + 1) if op == 'next_char' else (l + 1, 1)
            out.append('%d:%d:%d' % (l, c, ch))
        return ' '.join(out)

    def shrinks(self):
        st, ops = self.d
        for i in range(len(ops)):
            yield PosOps(st, ops[:i] + ops[i + 1:])
        if st != 'start':
            yield PosOps('start', ops)

    def nontrivial(self):
        return bool(self.d[1])


WALKERS = [
    lambda n: ('iterate_c', ('one_char',), n),
    lambda n: ('repeated', ('one_char',)),
    lambda n: ('foldl', ('one_char',), 1, 2),
    lambda n: ('foldr1', ('one_char',), 1, 2),
    lambda n: ('foldr_start_with_parser', ('one_char',), ('return_', 1), 2),
    lambda n: ('foldl_start_with_parser', ('one_char',), ('one_char',), 2),
    lambda n: ('sequence', tuple([('one_char',)] * min(n, 4)) or (('return_', 1),)),
    lambda n: ('first_of', (('repeated_reject_incomplete', ('one_char',)), ('empty', 1))),
    lambda n: ('entire_input0', ('repeated1', ('one_char',))),
    lambda n: ('repeated_one_of', (('lit_c', 10), ('lit_c', 13), ('lit_c', 97))),
    lambda n: ('repeated', ('one_char_except_c', S('#'))),
    lambda n: ('last_of', (('optional', ('spaces',), 3), ('repeated', ('one_of', (('letter',), ('space',)))))),
    lambda n: ('always', ('repeated', ('range_c', 0, 127)), 3),
    lambda n: ('transform', ('token', ('one_char',)), 1),
]


def newline_texts(maxn):
    for n in range(0, maxn + 1):
        yield from itertools.product((97, 10, 13), repeat=n)


def pos_sweep(r, maxn):
    for t in newline_texts(maxn):
        ws = r.sample(WALKERS, 3)
        for w in ws:
            yield ParseCase(w(len(t)), t, r.choice([(1, 1, 0), (1, 1, 0), (2, 1, 13), (7, 3, 13), (7, 3, 10), (1, 9, 97)]))
        yield ParseCase(('keyword', t, 1), t + S('z'), r.choice([(1, 1, 0), (4, 1, 13)]))
        # failing after the text: the error must be where the text ended
        if t:
            yield ParseCase(('last_of', (('keyword', t, 1), ('lit_c', 98))), t)
        yield ParseCase(('last_of', (('iterate_c', ('one_char',), len(t)), ('fail', 1))), t + S('q'))


def C04(ctx):
    ctx.rule = ('every text over {a, LF, CR} up to length %d consumed by different '
                'parsers from different start positions, long random texts rich in '
                'line breaks, random parser trees on such texts, and histories of '
                'next_char/next_line. Non-trivial: ' % ctx.n(6, 7) + ParseCase.RULE)
    pairs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C04', ctx.tier, cfg.name)
        pairs += pick(ctx, cfg, 'sweep', pos_sweep(r, ctx.n(6, 7)), ctx.n(700, 10**9))
        for _ in range(ctx.n(60, 600)):
            n = r.randint(5, min(60, cfg.max_text))
            t = tuple(r.choice((97, 98, 10, 13, 10, 13, 9, 32, 0, -5)) for _ in range(n))
            c = ParseCase(r.choice(WALKERS)(n), t, (r.choice([1, 3, 1000]), r.choice([1, 2, 77, 5000]), r.choice([0, 13, 10, 97])))
            if c.applicable(cfg):
                pairs.append((cfg, c))
        rc = random_cases(ctx, cfg, 'rnd', ctx.n(500, 4000), COMBINATORS, (), (2, 4), 24)
        for _, c in rc:      # enrich with newlines
            t = tuple(r.choice((10, 13)) if r.random() < 0.15 else x for x in c.s)
            c2 = ParseCase(c.p, t, c.pos)
            pairs.append((cfg, c2 if c2.applicable(cfg) else c))
        for _ in range(ctx.n(250, 1500)):
            st = r.choice(['start', (r.randint(1, 10**6), r.randint(1, 10**6), r.randint(-128, 127))])
            ops = tuple((r.choice(['next_char', 'next_line']), r.choice([10, 13, 97, r.randint(-128, 127)]),
                         r.choice(['char_', 'lazy', 'integral_c'])) for _ in range(r.randint(0, 8)))
            pairs.append((cfg, PosOps(st, ops)))
    ctx.evaluate(pairs)


# ------------------------------------------------------------------------ C05
CMP = ['equal_to', 'not_equal_to', 'less', 'less_equal', 'greater', 'greater_equal']


def pos_type(p):
    return 'boost::metaparse::source_position<boost::mpl::int_<%d>,boost::mpl::int_<%d>,boost::mpl::char_<%d> >' % p


class CmpCase(Probe):
    """list of positions: all six comparisons of the first with every other,
    both ways"""
    def code(self, cfg, k):
        a = pos_type(self.d[0][0])
        return 'typedef %s a; ' % a + ' '.join(
            'mpv::put_cmp<a, %s >();' % pos_type(b) for b in self.d[0])

    def expect(self, cfg):
        ps = self.d[0]
        a = ps[0]
        def six(a, b):
            return ''.join(str(int(x)) for x in (a == b, a != b, a < b, a <= b, a > b, a >= b))
        return ''.join(six(a, b) + six(b, a) + ' ' for b in ps)

    def shrinks(self):
        ps = self.d[0]
        if len(ps) > 2:
            for b in ps[1:]:
                yield CmpCase((ps[0], b))
        elif len(ps) == 2:
            for i in range(3):
                for f in (lambda v: v // 2, lambda v: v - 1):
                    q = [list(x) for x in ps]
                    for x in q:
                        x[i] = f(x[i])
                    if all(x[0] >= 1 and x[1] >= 1 and -128 <= x[2] for x in q):
                        yield CmpCase(tuple(map(tuple, q)))

    def size(self):
        return sum(abs(v) + 1 for p in self.d[0] for v in p) + 10**7 * len(self.d[0])

    def nontrivial(self):
        return len(set(self.d[0])) > 1


class GreaterCase(ParseCase):
    """consuming input yields a strictly greater position"""
    def code(self, cfg, k):
        return 'mpv::parse_cmp<%s, %s, %s >();' % (
            self.renderer(cfg, k).parser(self.p), cpp.text(self.s, self.rep, cfg),
            cpp.position(self.pos))

    def judge(self, cfg, payload):
        o = self.outcome()
        pos = o[3] if o[0] == 'A' else o[2]
        a, b = self.pos, pos
        e = ''.join(str(int(x)) for x in (a == b, a != b, a < b, a <= b, a > b, a >= b))
        if payload != e:
            return 'comparisons of start and end position: expected %s got %s' % (e, payload)
        if o[0] == 'A' and o[2] > 0 and not a < b:
            return 'position not greater after consuming'


def C05(ctx):
    ctx.rule = ('all pairs of positions from a small cube (lines, columns, previous '
                'characters) and random positions with values up to 2^31-1 sharing '
                'components, all six comparisons both ways against tuple comparison; '
                'and start vs end position of random parses. Non-trivial: at least two '
                'different positions / ' + ParseCase.RULE)
    pairs = []
    cube = [(l, c, p) for l in (1, 2, 9, 10) for c in (1, 2, 10) for p in (-128, 0, 10, 13, 97)]
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C05', ctx.tier, cfg.name)
        for a in cube:
            if ctx.quick():
                others = r.sample(cube, 15)
            else:
                others = cube
            pairs.append((cfg, CmpCase((a,) + tuple(others))))
        for _ in range(ctx.n(120, 1200)):
            hi = r.choice([3, 300, 40000, 70000, 2**31 - 2])
            base = (r.randint(1, hi), r.randint(1, hi), r.randint(-128, 127))
            near = []
            for _ in range(10):
                q = list(base)
                for i in range(3):
                    x = r.random()
                    if x < 0.3:
                        q[i] += r.choice([-1, 1, -256, 256, 65536, -65536])
                    elif x < 0.4:
                        q[i] = r.randint(1, hi) if i < 2 else r.randint(-128, 127)
                    elif x < 0.45:
                        q[i] = r.choice([1, 2, hi])
                q[0] = max(1, min(2**31 - 1, q[0]))
                q[1] = max(1, min(2**31 - 1, q[1]))
                q[2] = max(-128, min(127, q[2]))
                near.append(tuple(q))
            pairs.append((cfg, CmpCase((base,) + tuple(near))))
        pairs += random_cases(ctx, cfg, 'rnd', ctx.n(350, 3000), COMBINATORS, (), (2, 3), 16, GreaterCase)
    ctx.evaluate(pairs, batch=120)


# ------------------------------------------------------------------------ C12
class DigitConv(Probe):
    """box kind, character: digit_to_int forms"""
    def code(self, cfg, k):
        kind, c = self.d
        b = boxed(c, kind)
        forms = ['%sdigit_to_int<%s >::type' % (NSU, b),
                 '%sdigit_to_int<>::type::apply<%s >::type' % (NSU, b),
                 'boost::mpl::apply_wrap1<%sdigit_to_int<>, %s >::type' % (NSU, b),
                 '%sdigit_to_int_c<%s>::type' % (NSU, cpp.ch(c))]
        if is_digit(c):
            return ' '.join('mpv::put_int(%s::value);' % f for f in forms)
        return ' '.join('mpv::put_int((boost::is_same<%s, boost::metaparse::error::digit_expected>::value));' % f
                        for f in forms)

    def expect(self, cfg):
        c = self.d[1]
        return ('%d ' % (c - 48 if is_digit(c) else 1)) * 4


class IntConv(Probe):
    """int_to_digit forms and the round trips"""
    def code(self, cfg, k):
        kind, n = self.d
        b = {'int_': 'boost::mpl::int_<%d>', 'integral_c': 'boost::mpl::integral_c<int,%d>',
             'lazy': 'mpv::lazy<boost::mpl::int_<%d> >', 'long_': 'boost::mpl::integral_c<long,%d>'}[kind] % n
        forms = ['%sint_to_digit<%s >::type' % (NSU, b),
                 '%sint_to_digit<>::type::apply<%s >::type' % (NSU, b),
                 'boost::mpl::apply_wrap1<%sint_to_digit<>, %s >::type' % (NSU, b),
                 '%sint_to_digit_c<%d>::type' % (NSU, n)]
        s = ' '.join('mpv::put_int(%s::value);' % f for f in forms)
        return s + ' ' + ' '.join('mpv::put_int(%sdigit_to_int<%s >::type::value);' % (NSU, f) for f in forms)

    def expect(self, cfg):
        return ('%d ' % (self.d[1] + 48)) * 4 + ('%d ' % self.d[1]) * 4


def number_cases(r, cfg, n):
    m = cfg.max_text
    for _ in range(n):
        x = r.random()
        if x < 0.15:
            v = r.choice([0, 1, 9, 10, 99, 100, INT_MAX, INT_MAX - 1, 2147483640, 2000000000, 1999999999, 214748364, 32767, 32768, 65535, 65536, 999999999, 1000000000])
        elif x < 0.85:
            d = r.randint(1, 10)
            v = min(INT_MAX, r.randint(10**(d - 1), 10**d - 1))
        else:
            v = r.choice([b << k for k in range(28) for b in (1,)]) - r.choice([0, 1])
        z = r.choice([0, 0, 1, 2, r.randint(0, max(0, min(m - 16, 60)))])
        if r.random() < 0.02:
            z = r.randint(0, m - 16)
        t = '0' * z + str(v)
        if r.random() < 0.1:
            t = ''
        pre = ''
        if r.random() < 0.15:
            pre = r.choice(['-', '+', ' ', 'a', '.', '/', ':', '\n', '\r'])
        post = r.choice(['', '', ' ', 'a', '-1', '.5', '/', ':', '\n3', 'e5', '_', '\0', '\x7f'])
        s = S(pre + t + post)[:m]
        p = r.choice([('int_',), ('int_',), ('int_',), ('token', ('int_',)),
                      ('sequence', (('int_',), ('repeated', ('one_char',)))),
                      ('last_of', (('one_char',), ('int_',))),
                      ('entire_input0', ('int_',)), ('digit_val',),
                      ('foldl1', ('digit_val',), 1, 2), ('repeated1', ('token', ('int_',))),
                      ('foldl_start_with_parser', ('last_of', (('lit_c', 45), ('int_',))), ('int_',), 1)])
        yield ParseCase(p, s)


def C12(ctx):
    ctx.rule = ('digit runs of every length and value class (powers, boundaries up to '
                'INT_MAX, leading zeros) with varying neighbours; digit/character '
                'conversions in all forms for every character and 0..9. Non-trivial: '
                + ParseCase.RULE + '; all conversion cases')
    pairs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C12', ctx.tier, cfg.name)
        pairs += [(cfg, c) for c in number_cases(r, cfg, ctx.n(900, 8000)) if c.applicable(cfg)]
        for n in range(0, 200 if ctx.quick() else 1100):
            pairs.append((cfg, ParseCase(('int_',), S(str(n) + 'x'))))
            v = r.randint(0, INT_MAX)
            pairs.append((cfg, ParseCase(('int_',), S(str(v)))))
        for c in ALL:
            pairs.append((cfg, DigitConv(r.choice(['char_', 'lazy', 'integral_c']), c)))
            pairs.append((cfg, ParseCase(('int_',), (c,) if not (cfg.no_ff and c == -1) else ())))
            pairs.append((cfg, ParseCase(('int_',), (53, c) if not (cfg.no_ff and c == -1) else ())))
        for n in range(10):
            for kd in ('int_', 'integral_c', 'lazy', 'long_'):
                pairs.append((cfg, IntConv(kd, n)))
            pairs.append((cfg, DigitConv('int_', 48 + n)))
    ctx.evaluate([(c, k) for c, k in pairs if k.applicable(c)], batch=350)


# ------------------------------------------------------------------------ C18
VALS = [('val', 3), ('int', -7), ('int', 123456), ('char', 97), ('str', S('ab\n')), ('list', (1, 2)),
        ('term', 4), ('bool', 1)]


def value_type(v):
    k, x = v
    return {'val': lambda: 'mpv::val<%d>' % x, 'int': lambda: 'boost::mpl::int_<%d>' % x,
            'char': lambda: 'boost::mpl::char_<%d>' % x, 'bool': lambda: 'boost::mpl::bool_<%d>' % x,
            'str': lambda: cpp.text(x),
            'list': lambda: 'boost::mpl::vector<%s >' % ','.join('mpv::val<%d>' % y for y in x),
            'term': lambda: 'mpv::term2<%d, mpv::val<1>, mpv::val<2> >' % x}[k]()


def value_show(v):
    k, x = v
    return {'val': lambda: 'val%d' % x, 'int': lambda: '%d' % x, 'char': lambda: '%d' % x,
            'bool': lambda: '%d' % x,
            'str': lambda: '[' + ' '.join(map(str, x)) + ']',
            'list': lambda: '[' + ' '.join('val%d' % y for y in x) + ']',
            'term': lambda: '(%d val1 val2)' % x}[k]()


def lz(t, on):
    return 'mpv::lazy<%s >' % t if on else t


class OutcomeCase(Probe):
    """('A', value, text, pos, lazy-mask) or ('R', msg, pos, lazy-mask), and
    the alternative of unless_error"""
    def outcome_type(self, o):
        if o[0] == 'A':
            _, v, t, p, m = o
            x = 'boost::metaparse::accept<%s, %s, %s >' % (
                lz(value_type(v), m & 1), lz(cpp.text(t), m & 2), lz(pos_type(p), m & 4))
        else:
            _, g, p, m = o
            x = 'boost::metaparse::reject<%s, %s >' % (lz('mpv::msg<%d>' % g, m & 1), lz(pos_type(p), m & 4))
        if m & 8:
            x += '::type'
        return lz(x, m & 16)

    def code(self, cfg, k):
        o, alt = self.d
        return 'typedef %s o; typedef %s alt; mpv::put_outcome<o>(); std::printf(" / "); mpv::put_unless<o, alt>();' % (
            self.outcome_type(o), 'mpv::poison' if alt == 'poison' else self.outcome_type(alt))

    @staticmethod
    def text(o):
        if o[0] == 'A':
            return 'A|%s|%s|%d:%d:%d' % (value_show(o[1]), chars_escaped(o[2]), *o[3])
        return 'R|user\\20message\\20%d|%d:%d:%d' % (o[1], *o[2])

    def expect(self, cfg):
        o, alt = self.d
        t = self.text(o)
        e = int(o[0] == 'R')
        return '%d%d%d%s%s / %s' % (e, e, e, 'F' if e else 'A', t, t if e else self.text(alt))

    def applicable(self, cfg):
        for o in self.d:
            if o != 'poison' and o[0] == 'A':
                if len(o[2]) > cfg.max_text or cfg.no_ff and -1 in o[2]:
                    return False
        return self.d[1] != 'poison' or self.d[0][0] == 'R'

    def shrinks(self):
        o, alt = self.d
        for i in (0, 1):
            x = self.d[i]
            if x == 'poison':
                continue
            for b in (1, 2, 4, 8, 16):
                if x[-1] & b:
                    y = x[:-1] + (x[-1] & ~b,)
                    yield OutcomeCase(*((y, alt) if i == 0 else (o, y)))
            if x[0] == 'A' and x[2]:
                y = x[:2] + (x[2][1:],) + x[3:]
                yield OutcomeCase(*((y, alt) if i == 0 else (o, y)))

    def size(self):
        return sum(len(str(x)) + (bin(x[-1]).count('1') * 20 if x != 'poison' else 0) for x in self.d)

    def labels(self):
        yield 'outcome:' + self.d[0][0]
        if self.d[0][-1]:
            yield 'outcome:lazy'


class LazyPos(Probe):
    """accessors and advancing on unevaluated positions and characters"""
    def code(self, cfg, k):
        p, c, m = self.d
        P, C = lz(pos_type(p), m & 1), lz('boost::mpl::char_<%d>' % c, m & 2)
        out = []
        for op in ('next_char', 'next_line'):
            x = 'boost::metaparse::%s<%s, %s >' % (op, P, C)
            if m & 4:
                x = lz(x, True)
            if m & 8:
                x = 'boost::metaparse::next_char<%s, boost::mpl::char_<98> >' % x
            out.append('mpv::put_pos<%s >(); std::printf(" ");' % x)
        out.append('mpv::put_pos<%s >();' % P)
        return ' '.join(out)

    def expect(self, cfg):
        (l, c, p), ch, m = self.d
        out = []
        for q in ((l, c + 1, ch), (l + 1, 1, ch)):
            if m & 8:
                q = (q[0], q[1] + 1, 98)
            out.append('%d:%d:%d' % q)
        return ' '.join(out) + ' %d:%d:%d' % (l, c, p)


class TagCase(Probe):
    """the tags of the values"""
    def code(self, cfg, k):
        return ('mpv::put_int((boost::is_same<boost::mpl::tag<%s >::type, boost::metaparse::%s>::value));'
                % self.d)

    def expect(self, cfg):
        return '1 '


def C18(ctx):
    ctx.rule = ('random acceptances and rejections over different kinds of values, '
                'texts, positions and messages, each part and the whole outcome lazily '
                'wrapped or not, read back through every accessor; unless_error with '
                'random alternatives (a non-evaluable one after an error); lazily given '
                'positions. All cases are non-trivial')
    pairs = []

    def rand_outcome(r, cfg):
        p = (r.randint(1, 500), r.randint(1, 500), r.randint(-128, 127))
        if r.random() < 0.15:
            p = (2**r.randint(9, 30) + r.randint(0, 9), 2**r.randint(9, 30) - r.randint(0, 9), p[2])
        m = r.randrange(32)
        if r.random() < 0.55:
            n = r.choice([0, 1, 2, 5, min(30, cfg.max_text)] * 6 + [min(260, cfg.max_text)])
            v = r.choice(VALS)
            if r.random() < 0.3:
                v = ('int', r.randint(-2**31 + 1, 2**31 - 1))
            return ('A', v, tuple(r.choice([97, 98, 10, 0, -3, 127]) for _ in range(n)), p, m)
        return ('R', r.randint(0, 99), p, m)
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C18', ctx.tier, cfg.name)
        for _ in range(ctx.n(900, 8000)):
            o = rand_outcome(r, cfg)
            alt = rand_outcome(r, cfg) if o[0] == 'A' or r.random() < 0.8 else 'poison'
            pairs.append((cfg, OutcomeCase(o, alt)))
        for m in range(16):
            for _ in range(ctx.n(12, 40)):
                pairs.append((cfg, LazyPos((r.randint(1, 99), r.randint(1, 99), r.choice([0, 10, 13, 5])),
                                           r.choice([10, 13, 97, 0, -9]), m)))
        for t, tag in (('boost::metaparse::accept<mpv::val<1>, boost::metaparse::string<>, boost::metaparse::start>', 'accept_tag'),
                       ('boost::metaparse::reject<mpv::msg<1>, boost::metaparse::start>', 'fail_tag'),
                       ('boost::metaparse::start', 'source_position_tag'),
                       (pos_type((3, 4, 5)), 'source_position_tag'),
                       ('boost::metaparse::next_char<boost::metaparse::start, boost::mpl::char_<3> >::type', 'source_position_tag'),
                       ('boost::metaparse::string<>', 'string_tag'), ('boost::metaparse::string<1,2>', 'string_tag'),
                       ('boost::mpl::apply_wrap2<boost::metaparse::one_char, boost::metaparse::string<1>, boost::metaparse::start>::type', 'accept_tag'),
                       ('boost::mpl::apply_wrap2<boost::metaparse::one_char, boost::metaparse::string<>, boost::metaparse::start>::type', 'fail_tag')):
            pairs.append((cfg, TagCase(t, tag)))
    ctx.evaluate([(c, k) for c, k in pairs if k.applicable(c)], batch=200)


# ------------------------------------------------------------------------ C11
class MsgCase(Probe):
    """message type, expected text"""
    def code(self, cfg, k):
        return ('mpv::put_escaped(%s::get_value()); std::printf("|"); mpv::put_escaped(%s::type::get_value());'
                % (self.d[0], self.d[0]))

    def expect(self, cfg):
        e = escape(self.d[1])
        return e + '|' + e

    def labels(self):
        yield 'message-text'


class DefineErrorCase(Probe):
    """a user defined error message, produced through fail<>"""
    def decls(self, cfg, k):
        return 'BOOST_METAPARSE_DEFINE_ERROR(user_error_%d, %s);' % (k, cpp.literal(self.d[0]))

    def code(self, cfg, k):
        return ('mpv::put_escaped(user_error_%d::get_value()); std::printf("|"); '
                'mpv::parse<boost::metaparse::last_of<boost::metaparse::one_char, '
                'boost::metaparse::fail<user_error_%d> >, boost::metaparse::string<10>, boost::metaparse::start>();' % (k, k))

    def expect(self, cfg):
        e = chars_escaped(self.d[0])
        return '%s|R|%s|2:1:10' % (e, e)

    def shrinks(self):
        for s in gen.shrink_text(self.d[0]):
            yield DefineErrorCase(s)

    def labels(self):
        yield 'defined-error'


E = 'boost::metaparse::error::'
PLAIN_ERRORS = {'digit_expected': 'Digit expected', 'end_of_input_expected': 'End of input expected',
                'expected_to_fail': 'Parser expected to fail', 'letter_expected': 'Letter expected',
                'none_of_the_expected_cases_found': 'None of the expected cases found',
                'unexpected_character': 'Unexpected character',
                'unexpected_end_of_input': 'Unexpected end of input',
                'whitespace_expected': 'Whitespace expected'}
ERR = ['transform_error', 'transform_error_message', 'change_error_message', 'recover', 'move_error']
ERR_ROOTS = ERR + ['middle_of', 'one_of', 'sequence', 'first_of', 'last_of', 'nth_of_c', 'foldl_start_with_parser',
                   'foldl1', 'foldr1', 'repeated1', 'accept_when', 'entire_input', 'entire_input0', 'keyword',
                   'iterate_c', 'except', 'fail_at_first_char_expected', 'transform', 'always', 'token',
                   'repeated_reject_incomplete', 'foldr_start_with_parser', 'optional', 'look_ahead']


def err_sweep():
    """Every error transformer over every basic failure, after some progress."""
    fails = [('digit',), ('letter',), ('space',), ('lit_c', 98), ('range_c', 48, 57), ('one_of_c', S('xyz')),
             ('one_char_except_c', S('a!')), ('empty', 1), ('fail', 7), ('one_char',), ('keyword', S('a\nc'), 1),
             ('nth_of_c', 5, (('one_char',),)), ('accept_when', ('one_char',), ('false',), 3),
             ('except', ('one_char',), 1, 4), ('entire_input0', ('lit_c', 97)), ('int_',), ('alphanum',),
             ('middle_of', ('lit_c', 97), ('repeated', ('lit_c', 10)), ('lit_c', 98)),
             ('fail_at_first_char_expected', ('lit_c', 97)), ('repeated_reject_incomplete', ('keyword', S('a!'), 1)),
             ('one_of', (('keyword', S('a\nc'), 1), ('keyword', S('a!'), 2)))]
    texts = [(), S('!'), S('a'), S('a\n'), S('a\nb'), S('a!!')]
    for f in fails:
        for w in (f, ('transform_error', f, 1), ('transform_error_message', f, 2), ('change_error_message', f, 3),
                  ('recover', f, 4), ('move_error', f, 30, 40),
                  ('transform_error_message', ('transform_error_message', f, 1), 2),
                  ('change_error_message', ('transform_error', f, 1), 2),
                  ('transform_error', ('change_error_message', f, 1), 2),
                  ('transform', ('transform_error', f, 1), 2)):
            for t in texts:
                for pre in ((), S('0'), S('0\r\n')):
                    p = w
                    if pre:
                        p = ('last_of', (('keyword', pre, 1), w))
                    yield ParseCase(p, pre + t, (1, 1, 0) if len(pre) != 1 else (8, 3, 13))


def C11(ctx):
    ctx.rule = ('every error transformer over every kind of basic failure after some '
                'progress, random parser trees biased to failing inputs, texts of all '
                'built-in messages over their parameter ranges, random user defined '
                'messages. Non-trivial: ' + ParseCase.RULE + '; all message cases')
    pairs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C11', ctx.tier, cfg.name)
        pairs += pick(ctx, cfg, 'sweep', err_sweep(), ctx.n(650, 10**9))
        pairs += random_cases(ctx, cfg, 'rnd', ctx.n(600, 6000), ERR_ROOTS, ERR,
                              accept=lambda c: c.outcome()[0] == 'R' or r.random() < 0.3)
        ms = [(E + n, t) for n, t in PLAIN_ERRORS.items()]
        ms += [(E + 'literal_expected<%s>' % cpp.ch(c), 'Expected: ' + chr(c & 255)) for c in ALL]
        for _ in range(ctx.n(60, 400)):
            a, b, n = (r.choice([0, 1, -1, r.randint(-1000, 1000), r.randint(-2**31 + 1, 2**31 - 1)]) for _ in range(3))
            ms.append((E + 'index_out_of_range<%d,%d,%d>' % (a, b, n), 'index (%d) out of range [%d-%d]' % (n, a, b)))
            l, c = r.randint(1, 10**r.randint(1, 9)), r.randint(1, 10**r.randint(1, 9))
            inner = r.choice(ms)
            t = inner[1] + ' (see %d:%d)' % (l, c)
            ms.append((E + 'unpaired<%d,%d,%s >' % (l, c, inner[0]), t))
            ms.append((E + 'unpaired<%d,%d>::type::apply<%s >' % (l, c, inner[0]), t))
        pairs += [(cfg, MsgCase(*m)) for m in ms]
        for _ in range(ctx.n(40, 300)):
            t = tuple(r.choice([r.randint(1, 127), r.randint(32, 126), r.randint(-128, -1)]) for _ in range(r.randint(0, 60)))
            pairs.append((cfg, DefineErrorCase(t)))
    ctx.evaluate(pairs, batch=250)
