"""C13 build_parser / entire_input, C14 debug_parsing_error."""
import os
import re
import shutil
from . import cpp
from .engine import CFGS, Failure, run, first_error
from .gen import rng_for, COMBINATORS
from .model import render, ANY, VOID, pos_text, escape
from .parse_case import ParseCase, matches
from .checks_parse import cfgs, pick, random_cases, S

START = (1, 1, 0)


def alone(ctx, cfg, c):
    """Evaluate a case that needs a translation unit (or process) of its own."""
    if len(ctx.failures) >= 12 or ctx.enough():
        return
    bad = c.evaluate_alone(ctx, cfg)
    ctx.account(cfg, [c])
    if bad:
        with ctx.lock:
            ctx.failures.append(Failure(c, cfg, 'wrong', bad))


# ------------------------------------------------------------------------ C13
class BuiltCase(ParseCase):
    """An accepted input: the built parser compiles and yields the result."""
    def code(self, cfg, k):
        p = self.renderer(cfg, k).parser(self.p)
        t = cpp.text(self.s, self.rep, cfg)
        b = 'boost::metaparse::build_parser<%s >' % p
        form = (len(self.s) + cpp.size(self.p)) % 3
        r = ('boost::mpl::apply_wrap1<%s, %s >::type' % (b, t), '%s::type::apply<%s >::type' % (b, t),
             '%s::apply<%s >::type' % (b, t))[form]
        return 'mpv::show<%s >::run();' % r

    def applicable(self, cfg):
        return super().applicable(cfg) and self.outcome()[0] == 'A' and self.pos == START

    def judge(self, cfg, payload):
        e = self.outcome()[1].replace(VOID, ANY)
        if matches({e}, payload):
            return None
        return 'expected result %s, got %s' % (e.replace(ANY, '<any>'), payload)

    def labels(self):
        yield 'built:accept'
        yield from super().labels()


PLAIN = {'Digit expected': 'digit_expected', 'End of input expected': 'end_of_input_expected',
         'Parser expected to fail': 'expected_to_fail', 'Letter expected': 'letter_expected',
         'None of the expected cases found': 'none_of_the_expected_cases_found',
         'Unexpected character': 'unexpected_character',
         'Unexpected end of input': 'unexpected_end_of_input',
         'Whitespace expected': 'whitespace_expected'}


def message_pattern(m):
    """How the type of a message shows up in a compiler diagnostic."""
    if m in PLAIN:
        return re.escape(PLAIN[m])
    x = re.match(r'user message (\d+)$', m)
    if x:
        return r'\bmsg<%s>' % x.group(1)
    x = re.match(r'wrapped (\d+) <', m)
    if x:
        return r'\bwrapped_msg<%s,' % x.group(1)
    x = re.search(r' \(see (\d+):(\d+)\)$', m)
    if x:
        return r'\bunpaired<%s, ?%s,' % x.groups()
    x = re.match(r'index \((-?\d+)\) out of range \[(-?\d+)-(-?\d+)\]', m)
    if x:
        return r'\bindex_out_of_range<%s, ?%s, ?%s' % (x.group(2), x.group(3), x.group(1))
    if m.startswith('Expected: ') and len(m) == 11:
        c = ord(m[10])
        if 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122:
            return r"\bliteral_expected<'%s'>" % chr(c)
        return r'\bliteral_expected<'
    return ''


class RejectedBuild(ParseCase):
    """A rejected input: must not compile, and the diagnostic names the line,
    the column and the error."""
    def full_source(self, cfg):
        p = self.renderer(cfg, 0).parser(self.p)
        return ('#include "mpv_base.hpp"\n%s\ntypedef boost::metaparse::build_parser<\n  %s\n> parser;\n'
                'typedef %s text;\n'
                'typedef boost::mpl::apply_wrap1<parser, text>::type result;\n'
                'int main() { mpv::show<result>::run(); }\n' % (
                    self.decls(cfg, 0), p, cpp.text(self.s, self.rep, cfg)))

    def applicable(self, cfg):
        return super().applicable(cfg) and self.outcome()[0] == 'R' and self.pos == START

    def evaluate_alone(self, ctx, cfg):
        d = ctx.newdir()
        try:
            src = os.path.join(d, 'rejected.cpp')
            open(src, 'w').write(self.full_source(cfg))
            rc, err = ctx.compile(cfg, src)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc is None or rc < 0 or 'Killed' in err[-400:]:
            with ctx.lock:
                ctx.infra.append('compiler: rc=%s %s' % (rc, self.key()[:200]))
            return None
        if rc == 0:
            return 'a rejected input compiles with build_parser'
        _, msgs, pos = self.outcome()
        for m in msgs:
            if re.search(r'<\s*%d\s*,\s*%d\s*,[^\n]*?%s' % (pos[0], pos[1], message_pattern(m)), err):
                return None
        # another way of naming the place: as a source position
        if not re.search(r'<\s*\d+\s*,\s*\d+\s*,[^\n]*?(error::|msg<)', err):
            for m in msgs:
                for line in err.split('\n'):
                    if re.search(r'\bint_<%d>[^\n]{0,40}?\bint_<%d>' % pos[:2], line) and re.search(message_pattern(m), line):
                        return None
        return 'the diagnostic does not name line %d, column %d and %s: %s' % (
            pos[0], pos[1], ' or '.join(sorted(map(escape, msgs))), first_error(err))

    def labels(self):
        yield 'built:reject'
        yield from super().labels()


def entire_sweep():
    inner = [('int_',), ('repeated', ('letter',)), ('keyword', S('a\nb'), 1), ('return_', 1), ('fail', 2),
             ('sequence', (('lit_c', 97), ('lit_c', 98))), ('token', ('letter',)), ('digit',),
             ('optional', ('lit_c', 97), 3), ('look_ahead', ('lit_c', 97)), ('one_of', (('digit',), ('keyword', S('ab'), 2))),
             ('repeated1', ('one_of_c', S('ab\n'))), ('middle_of', ('lit_c', 40), ('letter',), ('lit_c', 41)), ('one_char',)]
    texts = [S(t) for t in ('', 'a', 'ab', 'a\nb', 'a\nb\n', '12', '12 ', '12x', 'a  ', 'a \n x', 'abc', 'ab\n', 'ab\n\n!', '(a)', '(a', '(a)\r\n', 'a\r\nb', '7')]
    for p in inner:
        for t in texts:
            yield ('entire_input0', p), t
            yield ('entire_input', p, 7), t
            yield ('last_of', (('optional', ('lit_c', 32), 1), ('entire_input0', p))), S(' ') + t
            yield ('one_of', (('entire_input0', p), ('entire_input', ('repeated', ('one_char',)), 4))), t
            yield p, t


def long_texts(r, cfg, n):
    """Long inputs: the offending place is far from the beginning."""
    m = cfg.max_text
    while n:
        n -= 1
        k = r.randint(min(m // 2, 60), m - 4)
        body = tuple(r.choice(S('ab') if r.random() < 0.6 else S('\n\r') if r.random() < 0.7 else S('ba\n')) for _ in range(k))
        if r.random() < 0.3:
            body = tuple(r.choice(S('ab')) for _ in range(k))
        if r.random() < 0.15:
            body = tuple(10 for _ in range(k))
        el = ('one_of_c', S('ab\n\r'))
        p = r.choice([
            ('entire_input0', ('repeated', el)), ('last_of', (('repeated', el), ('lit_c', 59))),
            ('last_of', (('repeated1', el), ('change_error_message', ('lit_c', 59), 4))),
            ('last_of', (('iterate_c', el, k), ('keyword', S('; '), 2))), ('entire_input', ('keyword', body, 1), 3),
            ('entire_input0', ('foldl_start_with_parser', ('one_of_c', S('ab\n\r')), ('return_', 1), 2))])
        yield p, body + r.choice([S('!'), S(';'), S('; '), S(';;'), ()])


def C13(ctx):
    ctx.rule = ('entire_input over different parsers and texts (model oracle, any start position); '
                'random parsers and texts handed to build_parser: accepted ones must compile and give the '
                'result, rejected ones are compiled alone and must fail with a diagnostic naming line, '
                'column and error. Non-trivial: ' + ParseCase.RULE)
    pairs, rejected = [], []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C13', ctx.tier, cfg.name)
        sweep = list(entire_sweep())
        starts = [START, (3, 9, 97), (2, 1, 13)]
        pairs += pick(ctx, cfg, 'entire', [ParseCase(p, t, r.choice(starts)) for p, t in sweep], ctx.n(250, 10**9))
        pairs += random_cases(ctx, cfg, 'rnd-entire', ctx.n(150, 1500), ['entire_input', 'entire_input0'],
                              ['entire_input', 'entire_input0'])
        pairs += pick(ctx, cfg, 'built', [BuiltCase(p, t) for p, t in sweep], ctx.n(150, 10**9))
        rejected += pick(ctx, cfg, 'rejected', [RejectedBuild(p, t) for p, t in sweep], ctx.n(12, 120))
        roots = COMBINATORS + ['entire_input0', 'entire_input'] * 6
        for _, c in random_cases(ctx, cfg, 'rnd-built', ctx.n(350, 3500), roots, ('entire_input0', 'middle_of', 'sequence')):
            b = BuiltCase(c.p, c.s)
            if b.applicable(cfg):
                pairs.append((cfg, b))
        far = list(long_texts(r, cfg, ctx.n(30, 300)))
        rejected += [(cfg, c) for c in [RejectedBuild(p, t) for p, t in far] if c.applicable(cfg)][:ctx.n(5, 60)]
        pairs += [(cfg, c) for c in [BuiltCase(p, t) for p, t in far] if c.applicable(cfg)][:ctx.n(4, 60)]
        n = 0
        for _, c in random_cases(ctx, cfg, 'rnd-rejected', ctx.n(200, 2000), roots,
                                 ('entire_input0', 'middle_of', 'sequence', 'keyword', 'last_of')):
            b = RejectedBuild(c.p, c.s)
            if b.applicable(cfg) and (b.outcome()[2] != START or r.random() < 0.3):
                rejected.append((cfg, b))
                n += 1
                if n >= ctx.n(28, 300):
                    break
    ctx.evaluate(pairs)
    ctx.map(lambda cc: alone(ctx, *cc), rejected)
    ctx.extra['rejected_compiled_alone'] = len(rejected)


# ------------------------------------------------------------------------ C14
def raw(cs):
    return bytes(c & 255 for c in cs)


class DebugCase(ParseCase):
    """Construct debug_parsing_error and look at what the process does."""
    FORMS = ('local', 'global', 'built', 'built-global', 'base')

    def __init__(self, parser, text, pos=START, rep='string', rec=(), form='local'):
        super().__init__(parser, text, pos, rep, rec)
        self.form = form

    def applicable(self, cfg):
        return self.pos == START and 0 not in self.s and super().applicable(cfg)

    def type_name(self, cfg, k):
        p = self.renderer(cfg, k).parser(self.p)
        if self.form.startswith('built'):
            p = 'boost::metaparse::build_parser<%s >' % p
        return 'boost::metaparse::debug_parsing_error<%s, %s >' % (p, cpp.text(self.s, self.rep, cfg))

    def decls(self, cfg, k):
        d = super().decls(cfg, k)
        if self.form == 'base':
            d += ' struct derived_%d : %s {};' % (k, self.type_name(cfg, k))
        return d

    def code(self, cfg, k):
        t = self.type_name(cfg, k)
        if self.form == 'base':
            t = 'derived_%d' % k
        if self.form in ('global', 'built-global'):
            return 'static %s debugger; (void)debugger;' % t
        return '%s debugger; (void)debugger;' % t

    def expected(self):
        o = self.outcome()
        head = (b'Compile-time parsing results\n----------------------------\nInput text:\n' + raw(self.s) + b'\n\n')
        if o[0] == 'A':
            return {head + b'Parsing was successful. Remaining string is:\n' + raw(self.s[o[2]:]) + b'\n'}
        return {head + b'Parsing failed:\nline %d, col %d: ' % o[2][:2] + m.encode('latin-1') + b'\n' for m in o[1]}

    def judge_process(self, rc, out):
        if out not in self.expected():
            return 'expected output %r, got %r' % (sorted(self.expected())[0], out)
        if rc != 0:
            return 'exit status %d' % rc
        return None

    def full_source(self, cfg):
        return debug_source(cfg, [self])

    def evaluate_alone(self, ctx, cfg):
        res = debug_batch(ctx, cfg, [self], True)
        return res[0] if res else None

    def variant(self, **k):
        k.setdefault('form', self.form)
        a = dict(parser=self.p, text=self.s, pos=self.pos, rep=self.rep, rec=self.rec)
        a.update(k)
        return DebugCase(**a)

    def shrinks(self):
        if self.form != 'local':
            yield self.variant(form='local')
        yield from super().shrinks()

    def size(self):
        return super().size() + (self.form != 'local')

    def labels(self):
        yield 'debug:' + self.form
        yield from super().labels()

    def to_json(self):
        d = super().to_json()
        d['form'] = self.form
        return d

    @classmethod
    def from_json(cls, d):
        f = cpp.freeze
        return cls(f(d['p']), f(d['s']), f(d['pos']), d.get('rep', 'string'), f(d.get('rec', [])), d['form'])


def debug_source(cfg, cases):
    out = ['#include "mpv_base.hpp"\n#include <boost/metaparse/debug_parsing_error.hpp>\n']
    for k, c in enumerate(cases):
        d = c.decls(cfg, k)
        if d:
            out.append(d + '\n')
        out.append('static void case_%d() { %s }\n' % (k, c.code(cfg, k)))
    out.append('int main(int, char** argv) {\n  switch (std::atoi(argv[1])) {\n')
    for k in range(len(cases)):
        out.append('    case %d: case_%d(); break;\n' % (k, k))
    out.append('  }\n  std::printf("the constructor returned\\n");\n  return 3;\n}\n')
    return ''.join(out)


def debug_batch(ctx, cfg, cases, alone=False):
    """List with a complaint or None per case; [] when inconclusive, None
    when they do not compile."""
    d = ctx.newdir()
    try:
        src, exe = os.path.join(d, 'debug.cpp'), os.path.join(d, 'debug')
        open(src, 'w').write(debug_source(cfg, cases))
        rc, err = ctx.compile(cfg, src, exe)
        if rc is None or rc < 0 or 'Killed' in err[-400:]:
            with ctx.lock:
                ctx.infra.append('compiler: rc=%s' % rc)
            return []
        if rc:
            return ['does not compile: ' + first_error(err)] if alone else None
        out = []
        for k, c in enumerate(cases):
            rc, o, _ = run([exe, str(k)], 60)
            out.append('the program does not end' if rc is None else c.judge_process(rc, o))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def C14(ctx):
    ctx.rule = ('random parsers over random texts (no NUL characters), debugged as a local, static, base '
                'class object and through build_parser; the whole standard output and the exit status are '
                'compared with the reference interpreter. Non-trivial: ' + ParseCase.RULE)
    jobs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C14', ctx.tier, cfg.name)
        cases = []
        sweep = list(entire_sweep())
        r.shuffle(sweep)
        cand = [(p, t) for p, t in sweep[:ctx.n(100, 10**9)]]
        cand += [(c.p, c.s) for _, c in random_cases(ctx, cfg, 'rnd', ctx.n(280, 2500), COMBINATORS + ['entire_input0'] * 4,
                                                   ('middle_of', 'change_error_message', 'entire_input0'), maxlen=32)]
        for p, t in cand:
            c = DebugCase(p, t, form=r.choice(DebugCase.FORMS))
            if c.applicable(cfg):
                cases.append(c)
        for _ in range(ctx.n(20, 120)):       # long texts, newlines, every byte
            n = r.choice([1, 31, 32, 33, cfg.max_text, r.randint(1, cfg.max_text)])
            n = min(n, cfg.max_text)
            t = tuple(r.choice([97, 10, 13, 9, 32, 34, 92, r.randint(1, 127), r.randint(-128, -2)]) for _ in range(n))
            p = r.choice([('iterate_c', ('one_char',), r.randint(0, n + 1)), ('entire_input0', ('iterate_c', ('one_char',), max(0, n - 1))),
                          ('repeated', ('one_char',)), ('last_of', (('repeated', ('one_char',)), ('fail', 3)))])
            c = DebugCase(p, t, form=r.choice(DebugCase.FORMS))
            if c.applicable(cfg):
                cases.append(c)
        step = 100
        jobs += [(cfg, cases[i:i + step]) for i in range(0, len(cases), step)]
    ctx.map(lambda n: ctx.get_pch(CFGS[n]), sorted({j[0].name for j in jobs}))

    def one(job):
        cfg, cases = job
        if ctx.enough():
            return
        res = debug_batch(ctx, cfg, cases)
        if res is None and len(cases) > 1:
            h = len(cases) // 2
            one((cfg, cases[:h]))
            one((cfg, cases[h:]))
            return
        if res is None:
            res = ['does not compile']
            with ctx.lock:
                ctx.isolated += 1
        if len(res) != len(cases):
            return
        ctx.account(cfg, cases)
        for c, bad in zip(cases, res):
            if bad:
                with ctx.lock:
                    ctx.failures.append(Failure(c, cfg, 'wrong', bad))
    ctx.map(one, jobs)
