"""C01 string literal macros, C02 strings as character sequences."""
import shutil
from . import cpp, gen
from .engine import CFGS, Failure
from .gen import rng_for
from .probe import Probe, chars_escaped

MACRO_QUICK = ['g11', 'c11', 'g17', 'c20', 'c14L', 'g20i11']
MACRO_FULL = ['g11', 'g14', 'g17', 'g20', 'c11', 'c14', 'c17', 'c20', 'g20i11',
              'c20i11', 'g11L', 'c14L', 'g17L']


def lit_text(cs, style):
    """The literal as written in the source."""
    if style == 'split' and len(cs) > 1:
        h = len(cs) // 2
        return cpp.literal(cs[:h]) + ' ' + cpp.literal(cs[h:])
    if style == 'raw' and all(32 <= c < 127 or c == 10 for c in cs):
        return 'R"~(%s)~"' % ''.join(map(chr, cs))
    if style == 'hexoct':
        out = ''
        for c in cs:
            u = c & 255
            out += {10: '\\n', 13: '\\r', 9: '\\t', 7: '\\a', 34: '\\"', 92: '\\\\', 39: "\\'"}.get(
                u, '\\%03o' % u)
        return '"%s"' % out
    return cpp.literal(cs)


def put_literal_code(cs, style, limit):
    return ''


class LiteralCase(Probe):
    """limit, characters, style: BOOST_METAPARSE_STRING of a literal."""
    def code(self, cfg, k):
        limit, cs, style = self.d
        want = cpp.tmpl('boost::metaparse::string', [str(c) for c in cs])
        return ('\n#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n'
                '#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n'
                'typedef BOOST_METAPARSE_STRING(%s) s;\n'
                'typedef %s want;\n'
                'mpv::put_literal<s, want>();%s' % (
                    limit, lit_text(cs, style), want,
                    '\nconstexpr auto v = BOOST_METAPARSE_STRING_VALUE(%s); (void)v; '
                    'std::printf("%%d", (int)boost::is_same<decltype(v), const want>::value);'
                    % lit_text(cs, style) if style == 'value' else ''))

    def expect(self, cfg):
        limit, cs, style = self.d
        return '%d|%s|1|' % (len(cs), chars_escaped(cs)) + ('1' if style == 'value' else '')

    def applicable(self, cfg):
        return not cfg.old and len(self.d[1]) <= self.d[0] <= 2048

    def size(self):
        return 3 * len(self.d[1]) + self.d[0] / 3000.0 + (self.d[2] != 'plain') + \
            sum(c != 97 for c in self.d[1])

    def shrinks(self):
        limit, cs, style = self.d
        if style != 'plain':
            yield LiteralCase(limit, cs, 'plain')
        if limit != max(32, len(cs)):
            yield LiteralCase(max(32, len(cs)), cs, style)
        for s in list(gen.shrink_text(cs))[:120]:
            yield LiteralCase(limit, s, style)
            yield LiteralCase(max(limit - len(cs) + len(s), len(s)), s, style)

    def nontrivial(self):
        return len(self.d[1]) > 1

    def show(self):
        limit, cs, style = self.d
        return 'limit %d, %d characters, %s: %s' % (limit, len(cs), style, chars_escaped(cs))

    def labels(self):
        limit, cs, style = self.d
        yield 'literal:' + style
        if len(cs) == limit:
            yield 'literal:exactly-at-limit'
        if 0 in cs:
            yield 'literal:embedded-nul'
        if len(cs) > 128:
            yield 'literal:over-128'


class TooLongCase(Probe):
    """limit, length: a literal longer than the limit must not compile."""
    def full_source(self, cfg):
        limit, n, style = self.d
        return ('#include <boost/metaparse/string.hpp>\n'
                '#include <boost/metaparse/string_value.hpp>\n'
                '#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n'
                '#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n' % limit +
                'typedef %s s;\ns* p; int main() {}\n' % self.expr())

    def expr(self):
        limit, n, style = self.d
        t = '"%s"' % ('a' * n)
        if style == 'value':
            return 'decltype(BOOST_METAPARSE_STRING_VALUE(%s))' % t
        return 'BOOST_METAPARSE_STRING(%s)' % t

    def applicable(self, cfg):
        return not cfg.old and self.d[1] > self.d[0] <= 2048

    def evaluate_alone(self, ctx, cfg):
        d = ctx.newdir()
        src = d + '/long.cpp'
        open(src, 'w').write(self.full_source(cfg))
        rc, err = ctx.compile(cfg, src, pch=None)
        shutil.rmtree(d, ignore_errors=True)
        if rc == 0:
            return 'a literal of %d characters compiles with a limit of %d' % (self.d[1], self.d[0])
        return None

    def shrinks(self):
        limit, n, style = self.d
        for l, m in ((limit, limit + 1), (limit // 2, limit // 2 + 1), (limit - 1, limit), (32, 33)):
            if l >= 0 and (l, m) != (limit, n):
                yield TooLongCase(l, m, style)

    def size(self):
        return self.d[0] + self.d[1]

    def labels(self):
        yield 'too-long'


def too_long(ctx, cfg, c):
    if len(ctx.failures) >= 12 or ctx.enough():
        return
    ctx.account(cfg, [c])
    bad = c.evaluate_alone(ctx, cfg)
    if bad:
        with ctx.lock:
            ctx.failures.append(Failure(c, cfg, 'wrong', bad))


def unique_chars(n, r, full):
    """Characters chosen so that no shifted or swapped copy looks the same."""
    if full:
        return tuple(r.randint(-128, 127) for _ in range(n))
    return tuple(33 + (i * 31 + i // 90 * 7) % 90 for i in range(n))


def C01(ctx):
    ctx.rule = ('every limit 0..2048 with a literal of exactly that length (limit '
                'redefined inside the translation unit), lengths around every chunk '
                'boundary, random limits/lengths with arbitrary byte values (NUL and '
                'non-ASCII included) and literal spellings, compared with string<...> '
                'of the same characters; longer literals must not compile. '
                'Non-trivial: at least two characters')
    names = MACRO_QUICK if ctx.quick() else MACRO_FULL
    pairs = []
    r = rng_for(ctx.seed, 'C01', ctx.tier)
    cs = [CFGS[n] for n in names]
    # 1. exhaustive limits: spread over the configurations in quick
    for L in range(0, 2049):
        t = unique_chars(L, r, L % 3 == 0)
        for cfg in ([CFGS[['g11', 'g17'][L % 2]]] + [CFGS[['c11', 'c20'][L % 2]]] * (L % 3 == 1) if ctx.quick() else [CFGS['g11'], CFGS['c14'], CFGS['g20']]):
            pairs.append((cfg, LiteralCase(L, t, 'plain')))
    # 2. lengths at chunk boundaries and all short lengths, in all configurations
    edges = sorted({b + k for b in (0, 1, 2, 4, 8, 16, 32, 64, 128, 192, 256, 384, 512, 640, 768, 1024, 1152, 1536, 2048)
                    for k in (-1, 0, 1)} - {-1, 2049} | set(range(0, 40)))
    for cfg in cs:
        for n in edges:
            if ctx.quick() and n > 600 and r.random() < 0.7:
                continue
            limit = r.choice([n, 2048, min(2048, n + r.randint(0, 130))])
            pairs.append((cfg, LiteralCase(limit, unique_chars(n, r, True),
                                           r.choice(['plain', 'split', 'hexoct', 'value', 'raw']))))
        # 3. random
        for _ in range(ctx.n(250, 1500)):
            n = r.choice([r.randint(0, 40), r.randint(0, 140), r.randint(0, 600)])
            limit = r.choice([n, min(2048, n + r.randint(0, 300)), max(32, n)])
            style = r.choice(['plain', 'split', 'raw', 'hexoct', 'value'])
            full = r.random() < 0.7 and style != 'raw'
            t = unique_chars(n, r, full)
            if style == 'raw':
                t = tuple(r.randint(32, 126) if r.random() < 0.95 else 10 for _ in range(n))
                t = tuple(c if c != 41 else 40 for c in t)
            elif r.random() < 0.3 and n:
                t = list(t)
                t[r.randrange(n)] = 0
                t[-1] = r.choice([0, t[-1]])
                t = tuple(t)
            pairs.append((cfg, LiteralCase(limit, t, style)))
    ctx.evaluate(pairs, batch=100)
    # 4. too long
    jobs = []
    for cfg in cs:
        ls = set()
        for L in ([r.randint(0, 40) for _ in range(ctx.n(8, 40))] +
                  [0, 1, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1279, 2000, 2047, 2048]):
            ls.add((L, L + 1))
            ls.add((L, r.choice([L + r.randint(2, 60), (L // 128 + 1) * 128 + 1, L * 2 + 7, 2049, 2500])))
        for _ in range(ctx.n(30, 300)):
            L = r.randint(0, 2048)
            ls.add((L, L + 1))
        jobs += [(cfg, TooLongCase(a, b, r.choice(['plain', 'plain', 'value'])))
                 for a, b in sorted(ls) if b > a]
    ctx.map(lambda j: too_long(ctx, *j), jobs)


# ------------------------------------------------------------------------ C02
OPS = ('push_back', 'push_front', 'pop_back', 'pop_front', 'clear')


def cap(cfg):
    return cfg.string_limit if cfg.old else 2100


class StringOps(Probe):
    """initial characters, ((op, char, box) ...): a history of operations"""
    def states(self):
        cur = list(self.d[0])
        out = [tuple(cur)]
        for op, c, _ in self.d[1]:
            if op == 'push_back':
                cur.append(c)
            elif op == 'push_front':
                cur.insert(0, c)
            elif op == 'pop_back':
                cur.pop()
            elif op == 'pop_front':
                cur.pop(0)
            else:
                cur = []
            out.append(tuple(cur))
        return out

    def legal(self):
        n = len(self.d[0])
        for op, c, _ in self.d[1]:
            if op.startswith('pop') and n == 0:
                return False
            n = 0 if op == 'clear' else n + (1 if op.startswith('push') else -1)
        return True

    def applicable(self, cfg):
        if not self.legal():
            return False
        st = self.states()
        if cfg.no_ff and any(-1 in s for s in st):
            return False
        return max(map(len, st)) <= cap(cfg)

    def code(self, cfg, k):
        from .probe import boxed
        lines = ['typedef %s s0; mpv::put_str<s0>();' % cpp.text(self.d[0])]
        for n, (op, c, bx) in enumerate(self.d[1], 1):
            a = 's%d' % (n - 1) + (', ' + boxed(c, bx) if op.startswith('push') else '')
            lines.append('typedef boost::mpl::%s<%s >::type s%d; mpv::put_str<s%d>();' % (op, a, n, n))
        n = len(self.d[1])
        last = self.states()[-1]
        if len(last) <= 200:
            lines.append('mpv::put_str_full<s%d>();' % n)
        # equality with the same, a shorter, a longer, a different string
        for o in self.others(cfg):
            lines.append('mpv::put_eq<s%d, %s >();' % (n, cpp.text(o)))
        for i in self.indices():
            lines.append('mpv::put_at<s%d, %d>();' % (n, i))
        return ' '.join(lines)

    def indices(self):
        n = len(self.states()[-1])
        return sorted({0, n // 3, n // 2, n - 1} & set(range(n)))

    def others(self, cfg):
        last = self.states()[-1]
        out = [last]
        if last:
            out += [last[:-1], last[1:], last[:-1] + (last[-1] ^ 1,), (last[0] ^ 32,) + last[1:]]
            m = len(last) // 2
            out.append(last[:m] + (last[m] ^ 4,) + last[m + 1:])
            # one character changed, and two exchanged, at places that vary with the case
            h = len(self.d[1]) + sum(last)
            i, j = h % len(last), (h * 7 + 3) % len(last)
            out.append(last[:i] + (last[i] ^ 16,) + last[i + 1:])
            swapped = list(last)
            swapped[i], swapped[j] = last[j], last[i]
            out.append(tuple(swapped))
        out += [last + (0,), last + (97,), (97,) + last, ()]
        return [o for o in out if len(o) <= cap(cfg) and not (cfg.no_ff and -1 in o)]

    def expect(self, cfg):
        out = ''
        for s in self.states():
            out += '%d,%d,%s,%s;' % (len(s), not s, chars_escaped(s),
                                     '%d,%d' % (s[0], s[-1]) if s else '-')
        s = self.states()[-1]
        e = chars_escaped(s)
        rev = chars_escaped(s[::-1])
        if len(s) <= 200:
            out += '{%s/%s/%s/%d}' % (e, e, rev, len(s))
        for o in self.others(cfg):
            out += '=%d%d' % (o == s, o == s)
        for i in self.indices():
            out += '@%d,%d' % (s[i], s[i])
        return out

    def size(self):
        return len(self.d[0]) + 3 * len(self.d[1]) + sum(c != 97 for c in self.d[0])

    def shrinks(self):
        init, ops = self.d
        for i in range(len(ops)):
            yield StringOps(init, ops[:i] + ops[i + 1:])
        st = self.states()
        if ops:
            yield StringOps(st[1], ops[1:])
        for s in list(gen.shrink_text(init))[:80]:
            yield StringOps(s, ops)

    def nontrivial(self):
        return len(self.d[1]) > 0 and max(map(len, self.states())) > 1

    def labels(self):
        for op, _, _ in self.d[1]:
            yield 'op:' + op
        yield 'final-length:%s' % ('0' if not self.states()[-1] else
                                   '1-8' if len(self.states()[-1]) < 9 else
                                   '9-32' if len(self.states()[-1]) < 33 else '33+')

    def show(self):
        return '"%s" then %s' % (chars_escaped(self.d[0]), ' '.join(
            op + ('(%d)' % c if op.startswith('push') else '') for op, c, _ in self.d[1]))


class StringWalk(Probe):
    """characters, from the end?, ((step, distance) ...): moving an iterator"""
    def places(self):
        cs, from_end, steps = self.d
        at = len(cs) if from_end else 0
        out = []
        for kind, k in steps:
            at += {'next': 1, 'prior': -1}.get(kind, k)
            out.append(at)
        return out

    def applicable(self, cfg):
        cs = self.d[0]
        return (len(cs) <= cfg.max_text and not (cfg.no_ff and -1 in cs) and
                all(0 <= a <= len(cs) for a in self.places()))

    def code(self, cfg, k):
        cs, from_end, steps = self.d
        out = ['typedef %s s; typedef boost::mpl::%s<s>::type i0;' % (
            cpp.text(cs), 'end' if from_end else 'begin')]
        at = self.places()
        for n, (kind, k) in enumerate(steps, 1):
            e = {'next': 'next<i%d>' % (n - 1), 'prior': 'prior<i%d>' % (n - 1),
                 'advance': 'advance<i%d, boost::mpl::int_<%d> >' % (n - 1, k),
                 'advance_long': 'advance<i%d, boost::mpl::long_<%d> >' % (n - 1, k),
                 'advance_c': 'advance_c<i%d, %d>' % (n - 1, k)}[kind]
            out.append('typedef boost::mpl::%s::type i%d; mpv::put_iter<s, i%d, i%d, %s>();' % (
                e, n, n, n - 1, 'true' if at[n - 1] < len(cs) else 'false'))
        out.append('mpv::put_str_foreign<s>();')
        return ' '.join(out)

    def expect(self, cfg):
        cs, from_end, steps = self.d
        n = len(cs)
        prev = n if from_end else 0
        out = ''
        for a in self.places():
            out += '(%d,%d,%d,%d,%d,%d%d%d100,%s)' % (
                a, -a, n - a, a - prev, prev - a, a == 0, a == n, a == prev,
                cs[a] if a < n else '-')
            prev = a
        s = cs[::-1]
        out += '0001%d,%d,%s,%s;' % (n, not n, chars_escaped(s), '%d,%d' % (s[0], s[-1]) if s else '-')
        return out

    def size(self):
        return len(self.d[0]) + 3 * len(self.d[2]) + sum(c != 97 for c in self.d[0]) + \
            sum(abs(k) for _, k in self.d[2]) / 100.0

    def shrinks(self):
        cs, from_end, steps = self.d
        for i in range(len(steps)):
            yield StringWalk(cs, from_end, steps[:i] + steps[i + 1:])
        for i, (kind, k) in enumerate(steps):
            for h in {k // 2, k - 1, k + 1} if abs(k) > 1 else ():
                yield StringWalk(cs, from_end, steps[:i] + ((kind, h),) + steps[i + 1:])
        for s in list(gen.shrink_text(cs))[:60]:
            yield StringWalk(s, from_end, steps)

    def nontrivial(self):
        return len(self.d[0]) > 1 and len(self.d[2]) > 1

    def labels(self):
        for k, d in self.d[2]:
            yield 'step:' + k + ('-' if d < 0 else '')

    def show(self):
        return '"%s" from %s: %s' % (chars_escaped(self.d[0]), 'end' if self.d[1] else 'begin',
                                     ' '.join('%s(%d)' % s for s in self.d[2]))


def rand_walk(r, cfg, n):
    cs = tuple(rand_char(r, cfg.no_ff) for _ in range(n))
    from_end = r.random() < 0.5
    at = n if from_end else 0
    steps = []
    for _ in range(r.randint(1, 7)):
        kind = r.choice(['next', 'prior', 'advance', 'advance_c', 'advance_long', 'advance'])
        if kind == 'next' and at == n or kind == 'prior' and at == 0:
            kind = 'advance'
        to = at + {'next': 1, 'prior': -1}.get(kind, 0)
        if to == at and kind.startswith('adv'):
            to = r.choice([r.randint(0, n), 0, n, max(0, min(n, at + r.randint(-3, 3)))])
        steps.append((kind, to - at))
        at = to
    return StringWalk(cs, from_end, tuple(steps))


def rand_char(r, no_ff):
    while True:
        c = r.choice([r.randint(-128, 127), r.randint(32, 126), r.choice([0, 10, 13, 97, -128, 127, 1])])
        if not (no_ff and c == -1):
            return c


def rand_ops(r, cfg, n0, count, limit):
    ops = []
    n = n0
    bias = r.choice([0.3, 0.5, 0.75])
    while len(ops) < count:
        if r.random() < 0.03:
            op = 'clear'
        elif r.random() < bias:
            op = r.choice(['push_back', 'push_front'])
        else:
            op = r.choice(['pop_back', 'pop_front'])
        if op.startswith('pop') and n == 0 or op.startswith('push') and n >= limit:
            if limit == 0:
                op = 'clear'
            else:
                op = 'push_back' if n == 0 else 'pop_front'
        n = 0 if op == 'clear' else n + (1 if op.startswith('push') else -1)
        ops.append((op, rand_char(r, cfg.no_ff) if op.startswith('push') else 0,
                    r.choice(['char_', 'char_', 'int_', 'integral_c', 'lazy'])))
    return tuple(ops)


STR_QUICK = ['g98', 'c98', 'g98L', 'g98S', 'g11', 'c14', 'g20', 'g17i98']
STR_FULL = ['g98', 'c98', 'g98L', 'g98X', 'c98L', 'g98S', 'g17i98', 'c17i98', 'g11', 'c11',
            'g14', 'c14', 'g17', 'c17', 'g20', 'c20', 'g17x', 'c20i11']


def C02(ctx):
    ctx.rule = ('histories of push/pop at both ends and clear from a random initial '
                'string, observed after every step (length, emptiness, ends, C string) '
                'and at the end by traversal in both directions, indexing, distance and '
                'equality with near misses, against a list of characters; for every '
                'length up to the limit each single operation. Non-trivial: at least '
                'one operation and two characters')
    pairs = []
    for name in (STR_QUICK if ctx.quick() else STR_FULL):
        cfg = CFGS[name]
        r = rng_for(ctx.seed, 'C02', ctx.tier, name)
        lim = cfg.string_limit if cfg.old else ctx.n(70, 200)
        # every length x every operation
        for n in range(0, lim + 1):
            if not cfg.old and n > 40 and ctx.quick() and n % 3:
                continue
            init = tuple(rand_char(r, cfg.no_ff) for _ in range(n))
            for op in OPS:
                if op.startswith('push') and n == lim and cfg.old:
                    continue
                if op.startswith('pop') and n == 0:
                    continue
                pairs.append((cfg, StringOps(init, ((op, rand_char(r, cfg.no_ff), 'char_'),))))
            pairs.append((cfg, StringOps(init, ())))
        if not cfg.old:
            for n in {ctx.n(99, 201), 127, 128, 129, 255, 256, 257, 511, 513, 640}:
                init = tuple(rand_char(r, cfg.no_ff) for _ in range(n))
                for op in OPS if not ctx.quick() else r.sample(OPS, 3):
                    pairs.append((cfg, StringOps(init, ((op, rand_char(r, cfg.no_ff), 'char_'),))))
            # as long as the longest literals
            if not ctx.quick() or name in ('g11', 'c14'):
                for n in [1024, 2047] + [r.randint(700, 2047) for _ in range(ctx.n(2, 8))]:
                    init = tuple(rand_char(r, cfg.no_ff) for _ in range(n))
                    for op in OPS if not ctx.quick() else r.sample(OPS, 2):
                        pairs.append((cfg, StringOps(init, ((op, rand_char(r, cfg.no_ff), 'char_'),))))
        # every character value
        for c in range(-128, 128):
            if c == -1 and cfg.no_ff:
                continue
            pairs.append((cfg, StringOps((97,), (('push_back', c, 'char_'), ('push_front', c, 'int_')))))
            if not ctx.quick() or c % 4 == 0:
                pairs.append((cfg, StringOps((c, c ^ 2 if c ^ 2 != -1 else 5), (('pop_front', 0, 'char_'),))))
        for _ in range(ctx.n(250, 3000)):
            hi = r.choice([4, 10, lim, lim])
            n = r.randint(0, hi)
            init = tuple(rand_char(r, cfg.no_ff) for _ in range(n))
            pairs.append((cfg, StringOps(init, rand_ops(r, cfg, n, r.randint(1, ctx.n(10, 25)), lim))))
        far = [] if cfg.old else [127, 128, 129, 256, 300]
        for n in list(range(0, min(lim, 40))) + far + [r.randint(0, lim) for _ in range(ctx.n(60, 900))]:
            pairs.append((cfg, rand_walk(r, cfg, n)))
    pairs = [(c, k) for c, k in pairs if k.applicable(c)]
    ctx.evaluate(pairs, batch=120)
