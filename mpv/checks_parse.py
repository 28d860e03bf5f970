"""Checks whose cases are 'apply a generated parser to a generated text'."""
from . import cpp, gen
from .engine import CFGS
from .gen import Gen, rng_for, COMBINATORS, LEAVES, ZERO_LEAVES
from .model import Model, Discard
from .parse_case import ParseCase

QUICK = ['g98', 'c98', 'g98L', 'g98M', 'c17M', 'g11', 'c14', 'g17', 'c20', 'g20i11']
FULL = ['g98', 'c98', 'g98L', 'g98M', 'g98X', 'c17M', 'c98L', 'g98S', 'g17i98', 'c17i98', 'g11', 'c11',
        'g20i11', 'c20i11', 'g11L', 'g14', 'c14', 'c14L', 'g17', 'c17', 'g17L',
        'g17x', 'g20', 'c20']


def cfgs(ctx):
    return [CFGS[n] for n in (QUICK if ctx.quick() else FULL)]


def next_pair(ctx, tag, roots, r):
    todo = ctx.pairs.setdefault((tag, tuple(roots)), [])
    if not todo:
        todo += [(k, j) for k in sorted(set(roots)) for j in COMBINATORS + LEAVES + ZERO_LEAVES]
        r.shuffle(todo)
    return todo.pop()


def random_cases(ctx, cfg, tag, n, roots=None, favour=(), depth=(2, 4),
                 maxlen=24, cls=ParseCase, weird=0.04, boost=5, rep_max=12,
                 accept=None):
    """n applicable random cases for one configuration."""
    r = rng_for(ctx.seed, ctx.prop, ctx.tier, cfg.name, tag)
    g = Gen(r, cfg.limits, weird)
    g.rep_max = rep_max
    w = {k: (boost if k in favour else 1) for k in COMBINATORS}
    for k in favour:
        w.setdefault(k, boost)
    out = []
    tries = 0
    while len(out) < n and tries < 40 * n + 100:
        tries += 1
        root = r.choice(roots) if roots else None
        if roots and tries % 3 == 0:
            # each root over each kind of operand, in turn over the configurations
            root, g.force = next_pair(ctx, tag, roots, r)
        p = g.parser(r.randint(*depth), w, root=root)
        g.force = None
        if cpp.size(p) > 60:
            continue
        s = g.text(p, min(maxlen, cfg.max_text))
        c = cls(p, s, g.position())
        if not c.applicable(cfg):
            ctx.discarded += 1
            continue
        if accept and not accept(c):
            ctx.discarded += 1
            continue
        out.append((cfg, c))
    return out


def stratum(c):
    """The structural class of a case: combinator, arity or count, index,
    outcome and text length."""
    if not isinstance(c, ParseCase):
        return ()
    shape = []
    for a in c.p[1:]:
        if isinstance(a, int):
            shape.append(a)
        elif isinstance(a, tuple) and a and isinstance(a[0], str):
            shape.append(a[0])
        elif isinstance(a, tuple):
            shape.append(len(a))
    try:
        out = c.outcome()[0]
    except Discard:
        out = '-'
    return (c.p[0], tuple(shape), out, len(c.s))


def pick(ctx, cfg, tag, cases, quota):
    """A deterministic random subset of structured cases for a configuration,
    spread evenly over the structural classes."""
    r = rng_for(ctx.seed, ctx.prop, ctx.tier, cfg.name, tag)
    cases = list(cases)
    r.shuffle(cases)
    if quota >= len(cases):
        return [(cfg, c) for c in cases if c.applicable(cfg)]
    groups = {}
    for c in cases:
        groups.setdefault(stratum(c), []).append(c)
    keys = sorted(groups, key=repr)
    r.shuffle(keys)
    out = []
    while keys and len(out) < quota:
        rest = []
        for k in keys:
            if len(out) >= quota:
                break
            g = groups[k]
            while g:
                c = g.pop()
                if c.applicable(cfg):
                    out.append((cfg, c))
                    break
            if g:
                rest.append(k)
        keys = rest
    return out


def S(t):
    return tuple(ord(c) for c in t)


ABC = S('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')


# ------------------------------------------------------------------------ C06
BIG = [13, 16, 17, 20, 21, 24, 25, 32, 33, 40, 64]


def arities(cfg, kind, small):
    """The arities to sweep: all of them up to the limit, or up to a bound and
    a few larger ones where the implementation is variadic."""
    if cfg.old:
        return list(range(0, cfg.hard[kind] + 1))
    return list(range(0, small + 1)) + [n for n in BIG if n > small]


def some(n):
    """Indices of n elements: all of them, or the interesting ones."""
    return range(n) if n <= 12 else sorted({0, 1, n // 2, n - 9, n - 8, n - 2, n - 1})


def names(n):
    return tuple(ABC[k % 52] for k in range(n))


def seq_sweep(ns):
    """Every arity x failing element x selected index."""
    for n in ns:
        whole = names(n)
        ps = tuple(('lit_c', c) for c in whole)
        texts = [whole, whole + S('!x')]
        for k in some(n):
            texts.append(whole[:k])                     # ends early
            texts.append(whole[:k] + S('?') + whole[k + 1:])
        if n > 12:
            texts = texts[:2] + texts[-4:]
        for t in texts:
            if n:
                yield ParseCase(('sequence', ps), t)
                if n <= 20:
                    yield ParseCase(('sequence_apply', n % 10, ps), t)
            yield ParseCase(('first_of', ps), t)
            yield ParseCase(('last_of', ps), t)
            for i in sorted({-2, -1, n, n + 1, n + 2} | set(some(n))):
                yield ParseCase(('nth_of_c', i, ps), t)
                yield ParseCase(('nth_of', i, ps), t)


def lengths(cfg, small):
    return [n for n in list(range(0, small + 1)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
            if n <= cfg.max_text - 3]


def iterate_sweep(ns):
    for n in ns:
        for el, ch in ((('letter',), ABC), (('one_char',), S('a\nb\rc\r\nd') * 8)):
            whole = (ch * 8)[:n]
            texts = [whole, whole + S('zz')]
            texts += [whole[:k] for k in {0, n // 2, max(n - 1, 0)}]
            texts += [whole[:k] + S('7') + whole[k:] for k in {0, n // 2, max(n - 1, 0)}]
            for t in texts:
                yield ParseCase(('iterate_c', el, n), t)
                yield ParseCase(('iterate', el, n), t)


def keyword_sweep(r, ns):
    for n in ns:
        for variant in range(3):
            kw = tuple(r.choice(ABC if variant else S('ab\n\r 0')) for _ in range(n))
            texts = [kw, kw + S(' x'), kw + kw]
            for k in {0, n // 2, max(n - 1, 0)}:
                texts.append(kw[:k])
                texts.append(kw[:k] + S('#') + kw[k + 1:])
            for t in texts:
                yield ParseCase(('keyword', kw, n % 10), t)
                yield ParseCase(('keyword0', kw), t)


def ws_sweep():
    import itertools
    ws = S(' \t\n\rx0\x0b\x0c')
    for n in range(0, 4):
        for t in itertools.product(ws, repeat=n):
            yield ParseCase(('spaces',), t)
            yield ParseCase(('token', ('keyword', S('k'), 1)), S('k') + t)
            yield ParseCase(('sequence', (('token', ('letter',)), ('one_char',))), S('a') + t)


def middle_sweep():
    opens = [S('('), S('\n('), S('(\r\n'), S('\r\r'), S('([\n')]
    mids = [S(''), S('x'), S('x\ny'), S('123')]
    for o in opens:
        for m in mids:
            p = ('middle_of', ('keyword', o, 1), ('repeated', ('alphanum',)), ('lit_c', ord(')')))
            p2 = ('middle_of', ('keyword', o, 1), ('keyword', m, 2), ('keyword', S('))'), 3))
            for t in (o + m + S(')'), o + m + S('))'), o + m, o + m + S(']'), o[:-1], o + S('!'), o + m + S(')!')):
                for pos in ((1, 1, 0), (4, 9, 13), (100, 250, 10)):
                    yield ParseCase(p, t, pos)
                    yield ParseCase(p2, t, pos)


SEQ = ['sequence', 'nth_of_c', 'nth_of', 'first_of', 'last_of', 'middle_of',
       'sequence_apply', 'iterate_c', 'iterate', 'keyword', 'keyword0', 'token',
       'spaces']


def C06(ctx):
    ctx.rule = ('random parser trees rooted in every sequencing combinator, texts '
                'sampled from the parser and mutated, plus sweeps over arity x '
                'failing element x selected index, iteration counts, keyword '
                'lengths and whitespace runs. Non-trivial: ' + ParseCase.RULE)
    pairs = []
    for cfg in cfgs(ctx):
        q = ctx.n(1, 8)
        r = rng_for(ctx.seed, 'C06kw', cfg.name)
        pairs += pick(ctx, cfg, 'seq', seq_sweep(arities(cfg, 'seq', ctx.n(11, 20))), ctx.n(450, 10**9))
        pairs += pick(ctx, cfg, 'it', iterate_sweep(lengths(cfg, 48)), ctx.n(160, 10**9))
        pairs += pick(ctx, cfg, 'kw', keyword_sweep(r, lengths(cfg, 40)), ctx.n(160, 10**9))
        pairs += pick(ctx, cfg, 'ws', ws_sweep(), ctx.n(120, 10**9))
        pairs += pick(ctx, cfg, 'mid', middle_sweep(), ctx.n(120, 10**9))
        pairs += random_cases(ctx, cfg, 'rnd', 700 * q, SEQ, SEQ)
    ctx.evaluate(pairs)


# ------------------------------------------------------------------------ C07
def choice_sweep(ns, r):
    """Arity x accepting alternative x how far the others get."""
    for n in ns:
        for j in list(some(n)) + [-1]:
            t = S('ab\nabcabcdefgh')[:r.randint(3, 9)]
            alts = []
            for k in range(n):
                d = r.randint(0, len(t) - 1)
                if k == j or (0 <= j < k and r.random() < 0.3):
                    alts.append(('keyword', t[:d], k % 10))
                elif r.random() < 0.25:
                    alts.append(('change_error_message', ('keyword', t[:d] + S('#'), k % 10), k % 10))
                else:
                    alts.append(('keyword', t[:d] + S('#'), k % 10))
            alts = tuple(alts)
            yield ParseCase(('one_of', alts), t)
            cons = tuple(a if a[0] != 'keyword' or a[1] else ('lit_c', 33) for a in alts)
            yield ParseCase(('repeated_one_of', cons), t + t)
            yield ParseCase(('repeated_one_of1', cons), t + t)
            chars = tuple(S('bcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-*/')[k % 65] if k != j else 97 for k in range(n))
            yield ParseCase(('one_of_c', chars), S('a?'))
            yield ParseCase(('one_of_c', chars), S('?'))
            yield ParseCase(('one_of_c', chars), ())
            yield ParseCase(('one_of', tuple(('lit_c', c) for c in chars)), S('a\n'))


def branch_sweep():
    """Every non-consuming combinator over operands that accept/reject with
    and without consuming, in front of a parser that shows what is left."""
    ops = [('lit_c', 97), ('keyword', S('ab'), 1), ('keyword', S('a\nb'), 1),
           ('return_', 3), ('fail', 4), ('repeated', ('letter',)),
           ('sequence', (('letter',), ('digit',))), ('empty', 2),
           ('one_of', (('keyword', S('abc'), 1), ('keyword', S('ab'), 2))),
           ('optional', ('keyword', S('ab'), 4), 5), ('look_ahead', ('letter',))]
    texts = [S(''), S('a'), S('ab'), S('abc'), S('a1'), S('a\nb'), S('a\n'), S('1'), S('\na')]
    rest = ('repeated', ('one_char',))
    for o in ops:
        for wr in (('optional', o, 7), ('if_', o, 1, 2), ('except', o, 3, 4),
                   ('look_ahead', o), ('fail_at_first_char_expected', o),
                   ('one_of', (o,)), ('one_of', (o, ('return_', 9))),
                   ('one_of', (('fail', 1), o)), ('optional0', o)):
            for t in texts:
                for pos in ((1, 1, 0), (3, 5, 13)):
                    yield ParseCase(wr, t, pos)
                    yield ParseCase(('sequence', (wr, rest)), t, pos)
                    yield ParseCase(('sequence', (('one_char',), wr, rest)), t, pos)


CHOICE = ['one_of', 'optional', 'optional0', 'if_', 'except', 'look_ahead',
          'one_of_c', 'repeated_one_of', 'repeated_one_of1', 'alphanum']


def C07(ctx):
    ctx.rule = ('random parser trees rooted in every choice combinator, sweeps over '
                'number of alternatives x accepting alternative x distance reached by '
                'the rejecting ones, and every branch combinator over operands that '
                'accept/reject with and without consuming. Non-trivial: ' + ParseCase.RULE)
    pairs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C07', cfg.name)
        for rnd in range(ctx.n(2, 10)):
            pairs += pick(ctx, cfg, 'ch%d' % rnd, choice_sweep(arities(cfg, 'one_of', 24), r), ctx.n(330, 10**9))
        pairs += pick(ctx, cfg, 'br', branch_sweep(), ctx.n(500, 10**9))
        pairs += random_cases(ctx, cfg, 'rnd', ctx.n(700, 6000), CHOICE, CHOICE)
    ctx.evaluate(pairs)


# ---------------------------------------------------------------- C08/C09/C10
ELEMENTS = [
    ('one_of_c', S('abc')), ('letter',), ('sequence', (('letter',), ('digit',))),
    ('keyword', S('ab'), 1), ('one_of', (('keyword', S('abc'), 1), ('lit_c', 97), ('lit_c', 10), ('lit_c', 13))),
    ('token', ('int_',)), ('last_of', (('lit_c', 44), ('int_',))),
    ('first_of', (('digit_val',), ('optional', ('lit_c', 59), 1))),
    ('transform', ('one_char_except_c', S('!')), 3),
]
SAMPLES = {0: ['a', 'b', 'c'], 1: ['x', 'A', 'z'], 2: ['a1', 'b2', 'z9'], 3: ['ab'],
           4: ['abc', 'a', '\n', '\r', '\r\n'], 5: ['1 ', '22\n', '3 \r\n'],
           6: [',1', ',23', ',04'], 7: ['1', '2;', '3;'], 8: ['a', '\n', '\r', ' ', '0']}
PARTIAL = {0: '1', 1: '1', 2: 'b', 3: 'ax', 4: 'ab', 5: 'x', 6: ',x', 7: 'x', 8: '!'}


def fold_sweep(roots, r, maxlen, counts):
    for k in roots:
        for e, el in enumerate(ELEMENTS):
            for n in counts:
                body = ''.join(r.choice(SAMPLES[e]) for _ in range(n))
                for tail in ('', PARTIAL[e], '!', '\n!'):
                    t = S(body + tail)
                    if k.endswith('start_with_parser'):
                        for init in (('return_', 4), ('lit_c', 33), ('keyword', S('!\n'), 5), el, ('empty', 2)):
                            pre = {'lit_c': '!', 'keyword': '!\n'}.get(init[0], '')
                            if init is el:
                                pre = r.choice(SAMPLES[e])
                            t2 = S(body + tail + pre) if k.startswith('foldr') else S(pre + body + tail)
                            if len(t2) <= maxlen:
                                yield ParseCase((k, el, init, 6), t2)
                    elif len(t) <= maxlen:
                        if k.startswith('fold'):
                            yield ParseCase((k, el, 5, 6), t)
                        else:
                            yield ParseCase((k, el), t)


def one_of_rep_sweep(r, ns, maxlen):
    for n in ns:
        alts = tuple(('lit_c', c) for c in names(n))
        for k in ('repeated_one_of', 'repeated_one_of1'):
            for _ in range(3):
                t = tuple(r.choice(ABC[:max(1, n)]) for _ in range(r.randint(0, maxlen - 2)))
                yield ParseCase((k, alts), t + S('?'))
                yield ParseCase((k, alts), t)


LEFT = ['foldl', 'foldl1', 'foldl_start_with_parser', 'repeated', 'repeated1',
        'repeated_one_of', 'repeated_one_of1']
LEFT_FULL = [k for k in LEFT if 'one_of' not in k]
RIGHT = ['foldr', 'foldr1', 'foldr_start_with_parser']
STRICT = ['foldl_reject_incomplete', 'foldl_reject_incomplete1',
          'foldl_reject_incomplete_start_with_parser', 'foldr_reject_incomplete',
          'foldr_reject_incomplete1', 'repeated_reject_incomplete',
          'repeated_reject_incomplete1']


def fold_check(ctx, roots, favour, what):
    ctx.rule = ('random parser trees rooted in ' + what + ' with nested element '
                'parsers, plus sweeps over element parser x number of matches x '
                'kind of tail (end, mismatch, partial match, newline) x initial/final '
                'parser. Non-trivial: ' + ParseCase.RULE)
    pairs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, ctx.prop, cfg.name)
        m = cfg.max_text
        small = [0, 1, 2, 3, 4, 5]
        more = ctx.n([6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 30, 32, 40, 65],
                   [6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 30, 31, 32, 40, 63, 64, 65])
        if not cfg.old:
            more += ctx.n([100, 129, 160, 257, 300], [100, 127, 128, 129, 160, 180, 200, 255, 256, 257, 300])
        sw = [k for k in roots if 'one_of' not in k and k != 'fail_at_first_char_expected']
        pairs += pick(ctx, cfg, 'small', fold_sweep(sw, r, m, small), ctx.n(550, 10**9))
        pairs += pick(ctx, cfg, 'more', fold_sweep(sw, r, m, more), ctx.n(130, 10**9))
        if 'repeated_one_of' in roots:
            pairs += pick(ctx, cfg, 'roo', one_of_rep_sweep(r, arities(cfg, 'one_of', 24), min(m, 40)), ctx.n(80, 10**9))
        pairs += random_cases(ctx, cfg, 'rnd', ctx.n(700, 6000), roots, favour)
    return pairs


def C08(ctx):
    ctx.evaluate(fold_check(ctx, LEFT, LEFT + ['sequence', 'one_of'], 'every repetition and left fold'))


def C09(ctx):
    ctx.evaluate(fold_check(ctx, RIGHT, RIGHT + ['sequence', 'one_of'], 'every right fold'))


def fafce_sweep():
    inner = [('lit_c', 97), ('keyword', S('ab'), 1), ('sequence', (('letter',), ('digit',))),
             ('return_', 1), ('fail', 2), ('repeated1', ('letter',)),
             ('one_of', (('keyword', S('ab'), 1), ('keyword', S('a\nc'), 1))),
             ('foldl_reject_incomplete', ('keyword', S('ab'), 1), 0, 1),
             ('change_error_message', ('keyword', S('ab'), 1), 3),
             ('middle_of', ('lit_c', 40), ('letter',), ('lit_c', 41)), ('empty', 4)]
    texts = ['', 'a', 'ab', 'abc', 'a1', '1', 'a\nb', '\n', '(', '(a', '(a)', '(1', 'aba', 'abab']
    rest = ('repeated', ('one_char',))
    for el in inner:
        for t in texts:
            for pos in ((1, 1, 0), (2, 1, 10), (5, 7, 13)):
                f = ('fail_at_first_char_expected', el)
                yield ParseCase(f, S(t), pos)
                yield ParseCase(('sequence', (f, rest)), S(t), pos)
                yield ParseCase(('sequence', (('one_char',), f, rest)), S('\n' + t), pos)
                yield ParseCase(('first_of', (('repeated', ('digit',)), f)), S('12' + t), pos)


def C10(ctx):
    roots = STRICT + ['fail_at_first_char_expected']
    pairs = fold_check(ctx, roots, STRICT + ['fail_at_first_char_expected', 'sequence', 'middle_of'],
                       'every reject-incomplete repetition and fold and fail_at_first_char_expected')
    for cfg in cfgs(ctx):
        pairs += pick(ctx, cfg, 'fafce', fafce_sweep(), ctx.n(300, 10**9))
    ctx.evaluate(pairs)


# ------------------------------------------------------------------------ C17
class ShiftCase(ParseCase):
    """Metamorphic: moving the starting position only shifts positions."""
    def code(self, cfg, k):
        r = self.renderer(cfg, k)
        t, p = cpp.text(self.s, self.rep, cfg), r.parser(self.p)
        moved = (self.pos[0] + 41, self.pos[1] + 1000, self.pos[2])
        return 'mpv::parse<%s, %s, %s >(); std::printf("\\n"); mpv::parse<%s, %s, %s >();' % (
            p, t, cpp.position(self.pos), p, t, cpp.position(moved))

    def judge(self, cfg, payload):
        a, _, b = payload.partition('\n')
        bad = super().judge(cfg, a)
        if bad:
            return bad
        if '(see' in a:
            import re
            def fix(m):
                return '(see\\20%s)' % self.shift_lc(int(m.group(1)), int(m.group(2)))
            a = re.sub(r'\(see\\20(\d+):(\d+)\)', fix, a)
        head, _, pos = a.rpartition('|')
        l, c, pc = map(int, pos.split(':'))
        want = '%s|%s:%d' % (head, self.shift_lc(l, c), pc)
        if b != want:
            return 'moved start: expected %s, got %s' % (want, b)

    def shift_lc(self, l, c):
        return '%d:%d' % (l + 41, c + 1000 if l == self.pos[0] else c)

    def applicable(self, cfg):
        return super().applicable(cfg) and not (
            cpp.kinds(self.p) & {'recover', 'move_error'})


class UnexaminedCase(ParseCase):
    """Metamorphic: text beyond what was examined has no influence."""
    def other(self):
        self.outcome()
        return self.s[:self.examined] + S('zz\n(')

    def code(self, cfg, k):
        r = self.renderer(cfg, k)
        p = r.parser(self.p)
        return 'mpv::parse<%s, %s, %s >(); std::printf("\\n"); mpv::parse<%s, %s, %s >();' % (
            p, cpp.text(self.s, self.rep, cfg), cpp.position(self.pos),
            p, cpp.text(self.other(), self.rep, cfg), cpp.position(self.pos))

    def judge(self, cfg, payload):
        a, _, b = payload.partition('\n')
        bad = super().judge(cfg, a)
        if bad:
            return bad
        if a[0] != b[0]:
            return 'outcome depends on unexamined text: %s / %s' % (a, b)
        if a[0] == 'R' and a != b:
            return 'rejection depends on unexamined text: %s / %s' % (a, b)
        if a[0] == 'A':
            xa, xb = a.split('|'), b.split('|')
            if xa[1] != xb[1] or xa[3] != xb[3]:
                return 'acceptance depends on unexamined text: %s / %s' % (a, b)

    def applicable(self, cfg):
        return (super().applicable(cfg) and self.examined < len(self.s) and
                len(self.other()) <= cfg.max_text)


def rec_cases(ctx, cfg, n):
    """Recursive parsers: the usual expression/bracket grammars, randomised."""
    r = rng_for(ctx.seed, ctx.prop, ctx.tier, cfg.name, 'rec')
    g = Gen(r, cfg.limits)
    out = []
    tries = 0
    while len(out) < n and tries < 20 * n:
        tries += 1
        atom = g.parser(1, consuming=True)
        o, c, sep = r.sample(S('()[]{}+-,;'), 3)
        shape = r.randrange(13)
        if shape == 0:     # brackets
            rec = (('one_of', (('middle_of', ('lit_c', o), ('rec', 0), ('lit_c', c)), atom)),)
        elif shape == 1:   # nested lists
            rec = (('one_of', (atom, ('middle_of', ('lit_c', o),
                   ('repeated', ('rec', 0)), ('lit_c', c)))),)
        elif shape == 2:   # expr over two levels
            rec = (('foldl_start_with_parser', ('last_of', (('token', ('lit_c', sep)), ('rec', 1))), ('rec', 1), 3),
                   ('one_of', (('token', atom), ('middle_of', ('token', ('lit_c', o)), ('rec', 0), ('token', ('lit_c', c))))))
        elif shape == 3:   # right recursion
            rec = (('one_of', (('sequence', (atom, ('lit_c', sep), ('rec', 0))), atom)),)
        elif shape == 4:   # optional tail
            rec = (('sequence', (atom, ('optional', ('last_of', (('lit_c', sep), ('rec', 0))), 8))),)
        elif shape == 6:   # the elements after a rejection are never looked at
            seq = r.choice([('first_of', (('lit_c', o), ('rec', 0), ('lit_c', c))),
                            ('nth_of_c', r.randint(0, 2), (('lit_c', o), ('rec', 0), ('lit_c', c))),
                            ('nth_of', r.randint(0, 2), (('lit_c', o), ('rec', 0), ('lit_c', c))),
                            ('sequence_apply', 3, (('lit_c', o), ('rec', 0), ('lit_c', c))),
                            ('sequence', (('lit_c', o), ('rec', 0), ('rec', 0), ('lit_c', c)))])
            rec = (('one_of', (seq, atom)),)
        elif shape == 7:   # iteration, the first element decides
            rec = (('one_of', (('last_of', (('lit_c', o), ('iterate_c', ('rec', 0), r.randint(1, 3)))), atom)),)
        elif shape == 8:   # wrappers around the reference
            w = r.choice([('transform', ('rec', 0), 2), ('always', ('rec', 0), 3), ('optional', ('rec', 0), 4),
                          ('change_error_message', ('rec', 0), 5), ('token', ('rec', 0)),
                          ('accept_when', ('rec', 0), ('true',), 1), ('fail_at_first_char_expected', ('rec', 0)),
                          ('transform_error_message', ('rec', 0), 6), ('entire_input0', ('rec', 0))])
            rec = (('one_of', (('last_of', (('lit_c', o), w)), atom)),)
        elif shape == 9:   # the reference is the final/initial parser of a fold
            k = r.choice(['foldl_start_with_parser', 'foldr_start_with_parser', 'foldl_reject_incomplete_start_with_parser'])
            el = ('last_of', (('lit_c', sep), atom)) if k.startswith('foldl') else ('first_of', (atom, ('lit_c', sep)))
            rec = (('one_of', (('middle_of', ('lit_c', o), (k, el, ('rec', 0), 3), ('lit_c', c)), atom)),)
        elif shape == 10:  # repetition of groups, incomplete ones rejected
            k = r.choice(['repeated_reject_incomplete', 'repeated_reject_incomplete1', 'repeated1'])
            rec = (('one_of', (atom, ('middle_of', ('lit_c', o), (k, ('rec', 0)), ('lit_c', c)))),)
        elif shape == 11:  # mutual recursion
            rec = (('one_of', (('last_of', (('lit_c', o), ('rec', 1))), atom)),
                   ('sequence', (('rec', 0), ('lit_c', c))))
        else:              # right fold over groups
            rec = (('foldr_start_with_parser', ('one_of', (atom, ('middle_of', ('lit_c', o), ('rec', 0), ('lit_c', c)))), ('return_', 2), 1),)
        p = ('rec', 0)
        if r.random() < 0.3:
            p = ('entire_input0', p)
        s = g.text(p, min(28, cfg.max_text), rec)
        c = ParseCase(p, s, g.position(), rec=rec)
        try:
            if c.applicable(cfg):
                out.append((cfg, c))
                continue
        except RecursionError:
            pass
        ctx.discarded += 1
    return out


def C17(ctx):
    ctx.rule = ('uniformly random parser trees (all combinators, depth up to %d) and '
                'recursive parsers on sampled/mutated texts, judged by the reference '
                'interpreter, plus two metamorphic relations (moved start position, '
                'replaced unexamined text). Non-trivial: ' % ctx.n(5, 7) + ParseCase.RULE)
    pairs = []
    for cfg in cfgs(ctx):
        pairs += random_cases(ctx, cfg, 'rnd', ctx.n(900, 9000), COMBINATORS, (), (2, ctx.n(4, 6)), 32)
        pairs += random_cases(ctx, cfg, 'deep', ctx.n(150, 1500), COMBINATORS, (), (5, ctx.n(5, 7)), 40)
        pairs += random_cases(ctx, cfg, 'shift', ctx.n(220, 2000), COMBINATORS, (), (2, 4), 24, ShiftCase)
        pairs += random_cases(ctx, cfg, 'unex', ctx.n(220, 2000), COMBINATORS, (), (2, 4), 28, UnexaminedCase)
        pairs += rec_cases(ctx, cfg, ctx.n(150, 1500))
    ctx.evaluate(pairs, batch=200)


# ------------------------------------------------------------------------ C20
VALUE = ['transform', 'accept_when', 'always', 'return_', 'fail', 'always_c',
         'sequence_apply', 'empty']


def value_sweep():
    ops = [('lit_c', 97), ('keyword', S('ab'), 1), ('return_', 3), ('fail', 4),
           ('repeated', ('letter',)), ('sequence', (('letter',), ('digit',))),
           ('int_',), ('one_char',), ('foldl', ('one_char',), 1, 2), ('empty', 3),
           ('transform', ('one_char',), 5), ('optional', ('letter',), 2)]
    texts = ['', 'a', 'ab', 'a1', '12', '7x', '\n', '\r\n', 'abc1']
    for o in ops:
        for w in (('transform', o, 1), ('always', o, 2), ('accept_when', o, ('true',), 1),
                  ('accept_when', o, ('false',), 2), ('sequence_apply', 1, (o,)),
                  ('sequence_apply', 2, (o, ('return_', 4))),
                  ('sequence_apply', 3, (('return_', 4), o, ('return_', 5))),
                  ('transform', ('transform', o, 1), 2), ('always', ('transform', o, 1), 3)):
            for t in texts:
                for pos in ((1, 1, 0), (9, 9, 13)):
                    yield ParseCase(w, S(t), pos)
                    yield ParseCase(('sequence', (w, ('repeated', ('one_char',)))), S(t), pos)
    for c in range(-128, 128):
        for t in ((), (c,), (c, 10), (c ^ 1,)):
            yield ParseCase(('always_c', c, 3), t)
        for q in (('mod', 7, 3), ('range', -5, 70)):
            yield ParseCase(('accept_when', ('one_char',), q, 2), (c, 97))


def C20(ctx):
    ctx.rule = ('random parser trees rooted in every transforming, filtering and '
                'constant parser, plus each of them over operands that accept or '
                'reject with and without consuming, all character values for '
                'always_c and predicates. Non-trivial: ' + ParseCase.RULE)
    pairs = []
    for cfg in cfgs(ctx):
        pairs += pick(ctx, cfg, 'sweep', value_sweep(), ctx.n(900, 10**9))
        pairs += random_cases(ctx, cfg, 'rnd', ctx.n(800, 7000), VALUE, VALUE)
    ctx.evaluate(pairs)
