"""C22 string header generator, C23 user supplied building blocks."""
import os
import random
import shutil
import sys
from . import cpp, gen
from .engine import CFGS, Case, Failure, REPO, run, first_error
from .gen import rng_for, COMBINATORS
from .parse_case import ParseCase
from .probe import Probe, chars_escaped
from .checks_build import alone
from .checks_parse import cfgs, random_cases
from .checks_string import lit_text, unique_chars


# ------------------------------------------------------------------------ C22
class Generated(Probe):
    """maximum, step (None: default), how the library is found and what was there
    before ('arg/fresh', ...),
    ((limit, characters, style) ...): literals with the regenerated headers"""
    def top(self):
        m, step, _, _ = self.d
        m, step = m or 2048, step or 128
        return (m + step - 1) // step * step

    def maximum(self):
        return self.d[0] or 2048

    def applicable(self, cfg):
        return not cfg.old and all(len(cs) <= limit <= self.maximum() for limit, cs, _ in self.d[3])

    def generate(self, d):
        """The include directory, or (None, why)."""
        m, step, where, _ = self.d
        where, history = where.split('/')
        shutil.copytree(os.path.join(REPO, 'include'), os.path.join(d, 'include'))
        for x in ('tools', 'elsewhere', 'elsewhere/deep'):
            os.mkdir(os.path.join(d, x))
        tool = os.path.join(d, 'tools', 'string_headers.py')
        shutil.copy(os.path.join(REPO, 'tools', 'string_headers.py'), tool)
        target = os.path.join(d, 'include')
        if history == 'fresh':     # else the existing header has to be replaced
            os.remove(os.path.join(target, 'boost/metaparse/v1/cpp11/impl/string.hpp'))
        cwd = d
        args = []
        if where == 'arg':
            args += ['--boost_dir', os.path.join(target, 'boost')]
        elif where == 'relative':
            args += ['--boost_dir', os.path.join('..', '..', 'include', 'boost') + '/']
            cwd = os.path.join(d, 'elsewhere', 'deep')
        elif where == 'default-elsewhere':
            cwd = os.path.join(d, 'elsewhere', 'deep')
        elif where == 'default-tools':
            cwd, tool = os.path.join(d, 'tools'), 'string_headers.py'
        elif where == 'default-relative':
            tool = 'tools/string_headers.py'
        before = []
        if history == 'again':
            before = ['--max_length_limit', str(self.maximum() + 100), '--length_limit_step', '37']
        own = (['--max_length_limit', str(m)] if m else []) + (['--length_limit_step', str(step)] if step else [])
        for extra in ([before] if before else []) + [own]:
            rc, out, err = run([sys.executable, '-B', tool] + args + extra, 120, cwd=cwd)
            if rc != 0:
                return None, 'the generator fails: %s' % err.decode('utf-8', 'replace')[-300:]
        return target, None

    def full_source(self, cfg):
        m = self.maximum()
        out = ['#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n' % m,
               '#include <boost/metaparse/string.hpp>\n#include <boost/metaparse/string_value.hpp>\n'
               '#include <type_traits>\n#include <cstdio>\n']
        body = []
        for k, (limit, cs, style) in enumerate(self.d[3]):
            out.append('#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n' % limit)
            e = lit_text(cs, style)
            out.append('typedef %s s%d;\n' % (
                'std::remove_cv<decltype(BOOST_METAPARSE_STRING_VALUE(%s))>::type' % e if style == 'value'
                else 'BOOST_METAPARSE_STRING(%s)' % e, k))
            out.append('typedef %s w%d;\n' % (cpp.tmpl('boost::metaparse::string', [str(c) for c in cs]), k))
            body.append('  std::printf("%%d", (int)std::is_same<s%d, w%d>::value);\n' % (k, k))
        out.append('int main() {\n%s}\n' % ''.join(body))
        return ''.join(out)

    def evaluate_alone(self, ctx, cfg):
        d = ctx.newdir()
        try:
            inc, why = self.generate(d)
            if why:
                return why
            src, exe = os.path.join(d, 'lit.cpp'), os.path.join(d, 'lit')
            open(src, 'w').write(self.full_source(cfg))
            rc, out, err = run([cfg.cxx] + cfg.flags() + ['-I' + inc, src, '-o', exe])
            err = err.decode('utf-8', 'replace')
            if rc is None or rc < 0 or 'Killed' in err[-400:]:
                with ctx.lock:
                    ctx.infra.append('compiler: rc=%s' % rc)
                return None
            if rc:
                return 'literals within the limit do not compile: ' + first_error(err)
            rc, out, _ = run([exe], 60)
            want = b'1' * len(self.d[3])
            if rc != 0 or out != want:
                return 'wrong strings: %r' % out
            return self.beyond(ctx, cfg, d, inc)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def beyond(self, ctx, cfg, d, inc):
        """A larger limit and a longer literal are refused."""
        m, top = self.maximum(), self.top()
        for what, limit, n in (('a limit of %d above the generated %d' % (top + 1, top), top + 1, 1),
                               ('a literal of %d characters with a limit of %d' % (m + 1, m), m, m + 1)):
            src = os.path.join(d, 'beyond.cpp')
            open(src, 'w').write(
                '#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n#include <boost/metaparse/string.hpp>\n'
                'typedef BOOST_METAPARSE_STRING("%s") s;\ns* p;\n' % (limit, 'a' * n))
            rc, out, err = run([cfg.cxx] + cfg.flags() + ['-I' + inc, '-fsyntax-only', src])
            if rc == 0:
                return what + ' compiles'
        return None

    def size(self):
        m, step, where, lits = self.d
        return (m or 3000) + (step or 200) + sum(10 + 3 * len(cs) + (st != 'plain') for _, cs, st in lits)

    def shrinks(self):
        m, step, where, lits = self.d
        for i in range(len(lits)):
            yield Generated(m, step, where, lits[:i] + lits[i + 1:])
        M = m or 2048
        for n in (1, M // 2, M - 1):
            if n >= 1 and n != M:
                yield Generated(n, step, where, tuple(x for x in lits if x[0] <= n))
        for s in (1, (step or 128) // 2, (step or 128) - 1):
            if s >= 1 and s != step and M // s < 400:
                yield Generated(m, s, where, lits)
        w, h = where.split('/')
        for x in ('arg/' + h, w + '/fresh'):
            if x != where:
                yield Generated(m, step, x, lits)

    def nontrivial(self):
        return self.maximum() > 1

    def show(self):
        m, step, where, lits = self.d
        return 'string_headers.py --max_length_limit %s --length_limit_step %s (directory/history %s): literals %s' % (
            m, step, where, ' '.join('%d/%d' % (len(cs), l) for l, cs, _ in lits))

    def labels(self):
        m, step, where, lits = self.d
        yield 'generated:' + ('default' if not m and not step else 'multiple' if self.top() == self.maximum() else 'rounded-up')
        yield 'location:' + where


def tree_state(top):
    out = {}
    for base, dirs, files in os.walk(top):
        for f in files + dirs:
            x = os.path.join(base, f)
            out[os.path.relpath(x, top)] = open(x, 'rb').read() if os.path.isfile(x) else None
    return out


class Refused(Probe):
    """(option, value): arguments the generator must refuse, leaving the
    headers alone"""
    def full_source(self, cfg):
        return '// %r' % (self.d,)

    def evaluate_alone(self, ctx, cfg):
        d = ctx.newdir()
        try:
            shutil.copytree(os.path.join(REPO, 'include'), os.path.join(d, 'include'))
            before = tree_state(os.path.join(d, 'include'))
            opt, val = self.d
            args = ['--boost_dir', os.path.join(d, 'include', 'boost')] if opt != '--boost_dir' else []
            # a copy, so that a generator which falls back to its own library finds the scratch one
            os.mkdir(os.path.join(d, 'tools'))
            tool = os.path.join(d, 'tools', 'string_headers.py')
            shutil.copy(os.path.join(REPO, 'tools', 'string_headers.py'), tool)
            rc, out, err = run([sys.executable, '-B', tool] + args + [opt, val.replace('@', d)], 120, cwd=d)
            if rc == 0:
                return 'accepted'
            if tree_state(os.path.join(d, 'include')) != before:
                return 'the headers were changed'
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)


def generated_cases(r, n):
    fixed = [(None, None), (1, None), (1, 1), (2, 1), (129, 128), (128, 128), (127, 128), (257, None), (33, 32), (7, 3),
             (10, 10), (11, 10), (9, 10), (512, 256), (1025, 512), (2049, 128), (3000, 500), (4096, 1024), (513, 513), (100, 1)]
    pairs = list(fixed)
    while len(pairs) < n:
        step = r.choice([None, r.randint(1, 12), r.randint(1, 130), r.randint(100, 700)])
        s = step or 128
        q = r.randint(0, 6)
        m = max(1, r.choice([q * s + 1, q * s, q * s - 1, r.randint(1, 300), r.randint(1, 1500)]))
        if m / s <= 60:
            pairs.append((m, step))
    for m, step in pairs[:n]:
        M, s = m or 2048, step or 128
        ls = {M, M - 1, 1, 0, M // 2, s, s + 1, s - 1, r.randint(0, M), r.randint(0, M)}
        # around every place where the generated macros change
        ls |= {b + k for b in r.sample(range(0, M + 1, s), min(4, M // s + 1)) for k in (-1, 0, 1)}
        ls |= {b + k for b in (512, 1024) for k in (-1, 0, 1)}
        lits = []
        for l in sorted(x for x in ls if 0 <= x <= M):
            k = r.choice([l, l, r.randint(0, l)])
            if sum(len(x[1]) for x in lits) + k > 14000:
                continue
            lits.append((l, unique_chars(k, r, r.random() < 0.5), r.choice(['plain', 'plain', 'value', 'hexoct'])))
        # limits beyond the literal
        lits.append((M, unique_chars(min(M, r.randint(0, 40)), r, True), 'plain'))
        lits.append((M, unique_chars(M, r, True), 'plain'))
        r.shuffle(lits)
        where = r.choice(['arg', 'arg', 'relative', 'default-elsewhere', 'default-tools', 'default-relative'])
        yield Generated(m, step, where + '/' + r.choice(['fresh', 'over', 'again']), tuple(lits))


def C22(ctx):
    ctx.rule = ('the generator run with the default and with random maximum lengths and steps (multiples, one '
                'more, one less, steps larger than the maximum) on a copy of the headers, then literals of '
                'lengths around every boundary with limits up to the maximum; a larger limit and longer '
                'literals must not compile; unusable arguments must be refused. Non-trivial: maximum over 1')
    names = ctx.n(['g11', 'c20', 'g17', 'c14'], ['g11', 'c11', 'g14', 'c14', 'g17', 'c17', 'g20', 'c20', 'g20i11'])
    r = rng_for(ctx.seed, 'C22', ctx.tier)
    jobs = []
    for c in generated_cases(r, ctx.n(160, 1200)):
        for n in r.sample(names, ctx.n(1, 2)):
            if c.applicable(CFGS[n]):
                jobs.append((CFGS[n], c))
    for opt in ('--max_length_limit', '--length_limit_step'):
        for v in ('0', '-1', '-128', 'x', '', '1.5', str(-r.randint(2, 10**6))):
            jobs.append((CFGS['g11'], Refused(opt, v)))
    for v in ('@/nowhere', '', '@/include/boost/nowhere', 'include/boos'):
        jobs.append((CFGS['g11'], Refused('--boost_dir', v)))
    ctx.map(lambda j: alone(ctx, *j), jobs)


# ------------------------------------------------------------------------ C23
class UserRenderer(cpp.Renderer):
    """Renders the same parser with user written building blocks."""
    def __init__(self, style, level=0.5):
        super().__init__()
        self.style = style
        self.r = random.Random(style)
        self.level = level

    U = 'mpv::user::'

    def cbox(self, c):
        return self.r.choice(['boost::mpl::char_<%s>', 'boost::mpl::integral_c<char,%s>',
                              self.U + 'box<char,%s>', self.U + 'lazy_box<char,%s>', 'boost::mpl::integral_c<char,%s>::type']) % cpp.ch(c)

    def ibox(self, n):
        return self.r.choice(['boost::mpl::int_<%d>', 'boost::mpl::integral_c<int,%d>', 'boost::mpl::long_<%d>',
                              self.U + 'box<int,%d>', self.U + 'lazy_box<int,%d>', self.U + 'box<long,%d>']) % n

    lenient = False        # sequence_apply gives the unevaluated instance

    def strict(self, f):
        return self.U + f + ('_inherits' if self.lenient else '_strict') + '<%d>'

    def arg(self, kind, a):
        r = self.r
        if kind == 'f':
            return [r.choice(['mpv::fun2<%d>', self.strict('f2'), self.U + 'f2_inherits<%d>', 'boost::mpl::quote2<%sbind2<%%d>::t>' % self.U,
                              'boost::mpl::lambda<%sact2<boost::mpl::int_<%%d>,boost::mpl::_1,boost::mpl::_2> >::type' % self.U]) % a]
        if kind == 'g':
            return [r.choice(['mpv::fun1<%d>', self.strict('f1'), self.U + 'f1_inherits<%d>', 'boost::mpl::quote1<%sbind1<%%d>::t>' % self.U,
                              'boost::mpl::lambda<mpv::act<boost::mpl::int_<%d>,boost::mpl::_1> >::type']) % a]
        if kind == 'q':
            x = super().arg(kind, a)[0]
            return [r.choice(['%s', self.U + 'p_plain<%s >', self.U + 'p_boxed<%s >',
                              'boost::mpl::lambda<' + self.U + 'holds<%s,boost::mpl::_1> >::type',
                              self.U + ('p_plain<%s >' if self.lenient else 'p_strict<%s >')]) % x]
        return super().arg(kind, a)

    def parser(self, p):
        k, r = p[0], self.r
        if k in ('lit', 'range'):
            x = cpp.tmpl(self.ns + k, [self.cbox(c) for c in p[1:]])
        elif k == 'one_char_except':
            x = cpp.tmpl(self.ns + k, [self.cbox(c) for c in p[1]])
        elif k == 'nth_of':
            x = cpp.tmpl(self.ns + k, [self.ibox(p[1])] + [self.parser(y) for y in p[2]])
        elif k == 'iterate':
            x = cpp.tmpl(self.ns + k, [self.parser(p[1]), self.ibox(p[2])])
        elif k in ('transform_error', 'transform_error_message') and r.random() < 0.6:
            if r.random() < 0.25:
                w = self.U + 'wrapped<boost::mpl::int_<%d>,%%s>' % p[2]
                lam = {'transform_error': '%sreject<%s,%sget_position<boost::mpl::_1> >' % (
                           self.ns, w % (self.ns + 'get_message<boost::mpl::_1> '), self.ns),
                       'transform_error_message': w % 'boost::mpl::_1'}[k]
                return cpp.tmpl(self.ns + k, [self.parser(p[1]), 'boost::mpl::lambda<%s >::type' % lam])
            f = {'transform_error': 'wrap_err', 'transform_error_message': 'wrap_msg'}[k]
            x = cpp.tmpl(self.ns + k, [self.parser(p[1]), 
                                       self.U + r.choice(['e_plain<mpv::%s<%d> >', 'e_strict<mpv::%s,%d>']) % (f, p[2])])
        else:
            x = super().parser(p)
        if r.random() < self.level:
            x = cpp.tmpl(self.U + r.choice(['plain', 'plain', 'rebuild', 'inherits', 'by_length']), [x])
        return x


class UserCase(ParseCase):
    headers = ('"mpv_user.hpp"',)

    def __init__(self, parser, text, pos=(1, 1, 0), rep='string', rec=(), style=0):
        super().__init__(parser, text, pos, rep, rec)
        self.style = style

    def renderer(self, cfg, k):
        r = UserRenderer(self.style, [0.0, 0.3, 0.6, 1.0][self.style % 4])
        r.lenient = 'sequence_apply' in cpp.kinds(self.p)
        r.rec_names = {i: 'rec_%d_%d' % (k, i) for i in range(len(self.rec))}
        return r

    def variant(self, **k):
        k.setdefault('style', self.style)
        a = dict(parser=self.p, text=self.s, pos=self.pos, rep=self.rep, rec=self.rec)
        a.update(k)
        return UserCase(**a)

    def to_json(self):
        d = super().to_json()
        d['style'] = self.style
        return d

    @classmethod
    def from_json(cls, d):
        c = super().from_json(d)
        c.style = d['style']
        return c

    def labels(self):
        yield 'style:%d' % (self.style % 4)
        yield from super().labels()

    def show(self):
        return super().show() + '; user written building blocks: ' + self.renderer(None, 0).parser(self.p)


def C23(ctx):
    ctx.rule = ('random parser trees over every combinator in which any node is replaced by a user written parser '
                '(only the result of apply is an outcome, rebuilt outcomes, inheriting, choosing by the text), '
                'functions and predicates are given as inheriting, quoted, lambda, boxed-result metafunction '
                'classes, characters and numbers as other boxed types. Non-trivial: ' + ParseCase.RULE)
    pairs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C23', ctx.tier, cfg.name)
        for _, c in random_cases(ctx, cfg, 'rnd', ctx.n(900, 8000), COMBINATORS, (), (2, 4), 24):
            pairs.append((cfg, UserCase(c.p, c.s, c.pos, style=r.randrange(10**6))))
    ctx.evaluate(pairs, batch=200)
