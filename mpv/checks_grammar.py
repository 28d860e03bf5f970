"""C15: the grammar language."""
import os
import shutil
from . import cpp, gen
from .engine import Case, Failure, first_error
from .gen import rng_for
from .model import Model, Discard, render, ANY, esc_chars
from .parse_case import matches
from .checks_parse import cfgs, S
from .checks_build import alone

# Abstract grammars: ('chr', c) ('name', n) ('star', e) ('plus', e)
# ('seq', a, b) ('alt', a, b), both left nested

ESC = {10: '\\n', 13: '\\r', 9: '\\t', 92: '\\\\', 39: "\\'"}
WSP = ' \n\r\t'
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'


class Bad(Exception):
    pass


class Ref:
    """Independent recursive descent parser of one rule definition."""
    def __init__(self, t):
        self.t, self.i = t, 0

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in WSP:
            self.i += 1

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def take(self, what):
        if not self.t.startswith(what, self.i):
            raise Bad()
        self.i += len(what)

    def name(self):
        j = self.i
        while self.peek() and self.peek() in ALNUM:
            self.i += 1
        if self.i == j:
            raise Bad()
        n = self.t[j:self.i]
        self.ws()
        return n

    def rule(self):
        n = self.name()
        self.take('::=')
        self.ws()
        e = self.expression()
        if self.i != len(self.t):
            raise Bad()
        return n, e

    def expression(self):
        e = self.seq()
        while self.peek() == '|':
            self.i += 1
            self.ws()
            e = ('alt', e, self.seq())
        return e

    def starts(self):
        c = self.peek()
        return bool(c) and (c in ALNUM or c in "'(")

    def seq(self):
        e = self.rep()
        while self.starts():
            e = ('seq', e, self.rep())
        return e

    def rep(self):
        e = self.atom()
        while self.peek() and self.peek() in '*+':
            e = ('star' if self.peek() == '*' else 'plus', e)
            self.i += 1
            self.ws()
        return e

    def atom(self):
        c = self.peek()
        if c == '(':
            self.i += 1
            self.ws()
            e = self.expression()
            self.take(')')
            self.ws()
            return e
        if c == "'":
            self.i += 1
            c = self.peek()
            if c == '\\' and self.t[self.i + 1:self.i + 2] in ('n', 'r', 't', '\\', "'"):
                c = {'n': '\n', 'r': '\r', 't': '\t'}.get(self.t[self.i + 1], self.t[self.i + 1])
                self.i += 2
            elif c and c != "'":
                self.i += 1
            else:
                raise Bad()
            self.take("'")
            self.ws()
            o = ord(c)
            return ('chr', o if o < 128 else o - 256)
        if c and c in ALNUM:
            return ('name', self.name())
        raise Bad()


def parse_rule(t):
    try:
        return Ref(t).rule()
    except Bad:
        return None


def text_of(r, e, level=0):
    """Random spelling of an expression.  level: 0 choice, 1 sequence element,
    2 operand of a repetition."""
    def ws(p=0.3):
        return ''.join(r.choice(WSP) for _ in range(r.choice([1, 1, 1, 2]))) if r.random() < p else ''
    k = e[0]
    if r.random() < 0.06:
        return '(' + ws() + text_of(r, e, 0) + ')' + ws()
    if k == 'chr':
        c = e[1]
        must = c in (39,)
        if c in ESC and (must or r.random() < 0.7):
            q = ESC[c]
        elif c == 92:
            q = '\\' if r.random() < 0.0 else '\\\\'
        else:
            q = chr(c & 255)
        return "'" + q + "'" + ws()
    if k == 'name':
        return e[1] + ws()
    if k in ('star', 'plus'):
        return text_of(r, e[1], 2) + ('*' if k == 'star' else '+') + ws()
    if k == 'seq':
        a, b = text_of(r, e[1], 1 if e[1][0] != 'seq' else 0.5), text_of(r, e[2], 1)
        if a[-1] in ALNUM and b[0] in ALNUM:
            a += r.choice(WSP)
        t = a + b
        if level >= 1:
            t = '(' + ws() + t + ')' + ws()
        return t
    if k == 'alt':
        t = text_of(r, e[1], 0 if e[1][0] == 'alt' else 0.25) + '|' + ws() + text_of(r, e[2], 0.25)
        if level > 0:
            t = '(' + ws() + t + ')' + ws()
        return t
    raise AssertionError(k)


def names_in(e, acc):
    if e[0] == 'name':
        acc.add(e[1])
    elif e[0] != 'chr':
        for x in e[1:]:
            names_in(x, acc)
    return acc


class Grammar(Case):
    """start: None or a name; rules: ((text, action or None) ...); imports:
    ((name, parser) ...); order: definition order; the input."""
    def __init__(self, start, rules, imports, order, text, pos=(1, 1, 0)):
        self.start, self.rules, self.imports = start, tuple(rules), tuple(imports)
        self.order, self.s, self.pos = tuple(order), tuple(text), tuple(pos)
        self._p = None

    # -------------------------------------------------------------- meaning
    def parsed(self):
        return [parse_rule(t) for t, _ in self.rules]

    def well_formed(self):
        ps = self.parsed()
        if any(p is None for p in ps):
            return False
        names = [p[0] for p in ps] + [n for n, _ in self.imports]
        if len(set(names)) != len(names) or (self.start or 'S') not in names:
            return False
        deps = {p[0]: names_in(p[1], set()) for p in ps}
        for n, _ in self.imports:
            deps[n] = set()
        if any(d not in deps for ds in deps.values() for d in ds):
            return False
        # no recursion
        state = {}

        def visit(n):
            if state.get(n) == 1:
                return False
            if state.get(n) == 2:
                return True
            state[n] = 1
            ok = all(visit(d) for d in deps[n])
            state[n] = 2
            return ok
        return all(visit(n) for n in deps)

    def parser(self):
        """The described parser, as a tree for the reference interpreter."""
        if self._p is None:
            rules = {}
            for (t, a), (n, e) in zip(self.rules, self.parsed()):
                rules[n] = (e, a)
            imports = dict(self.imports)

            def tr(e):
                k = e[0]
                if k == 'chr':
                    return ('lit', e[1])
                if k == 'name':
                    return ref(e[1])
                if k == 'star':
                    return ('repeated', tr(e[1]))
                if k == 'plus':
                    return ('repeated1', tr(e[1]))
                if k == 'seq':
                    return ('sequence', (tr(e[1]), tr(e[2])))
                return ('one_of', (tr(e[1]), tr(e[2])))

            def ref(n):
                if n in imports:
                    return imports[n]
                e, a = rules[n]
                p = tr(e)
                return p if a is None else ('transform', p, a[1])
            self._p = ref(self.start or 'S')
        return self._p

    def outcome(self):
        return Model().run(self.parser(), self.s, self.pos)

    # ------------------------------------------------------------------ C++
    def grammar_type(self):
        def st(t):
            return cpp.tmpl('boost::metaparse::string', [cpp.ch(ord(c) if ord(c) < 128 else ord(c) - 256) for c in t])
        g = 'boost::metaparse::grammar<%s >' % ('' if self.start is None else st(self.start))
        for kind, i in self.order:
            if kind == 'rule':
                t, a = self.rules[i]
                act = '' if a is None else ', ' + (
                    'mpv::fun1<%d>' % a[1] if a[0] == 'class' else 'mpv::act<boost::mpl::int_<%d>, boost::mpl::_1>' % a[1])
                g += '::rule<%s%s >::type' % (st(t), act)
            else:
                n, p = self.imports[i]
                g += '::import<%s, %s >::type' % (st(n), cpp.Renderer().parser(p))
        return g

    def code(self, cfg, k):
        return 'mpv::parse<%s, %s, %s >();' % (self.grammar_type(), cpp.text(self.s), cpp.position(self.pos))

    def judge(self, cfg, payload):
        allowed = render(self.outcome(), self.s)
        if matches(allowed, payload):
            return None
        return 'expected %s, got %s' % (' or '.join(sorted(x.replace(ANY, '<any>') for x in allowed)), payload)

    def fits(self, cfg):
        m = cfg.string_limit if cfg.old else 10**6
        ok = all(len(t) <= m for t, _ in self.rules) and len(self.s) <= cfg.max_text
        return ok and not (cfg.no_ff and (-1 in self.s or any('\xff' in t for t, _ in self.rules)))

    def applicable(self, cfg):
        if not self.fits(cfg) or not self.well_formed():
            return False
        try:
            if cpp.size(self.parser()) > 400:
                return False
            self.outcome()
        except Discard:
            return False
        return True

    # ------------------------------------------------------------- plumbing
    def variant(self, **k):
        a = dict(start=self.start, rules=self.rules, imports=self.imports, order=self.order,
                 text=self.s, pos=self.pos)
        a.update(k)
        return type(self)(**a)

    def shrinks(self):
        if self.pos != (1, 1, 0):
            yield self.variant(pos=(1, 1, 0))
        for s in gen.shrink_text(self.s):
            yield self.variant(text=s)
        for kind, lst in (('rule', self.rules), ('import', self.imports)):
            for i in range(len(lst)):
                new = lst[:i] + lst[i + 1:]
                o = tuple((k, j - (k == kind and j > i)) for k, j in self.order if (k, j) != (kind, i))
                yield self.variant(order=o, **{'rules' if kind == 'rule' else 'imports': new})
        for i, (t, a) in enumerate(self.rules):
            if a is not None:
                yield self.variant(rules=self.rules[:i] + ((t, None),) + self.rules[i + 1:])
            for j in range(len(t)):
                for w in (8, 4, 2, 1):
                    if j + w <= len(t) and (w == 1 or j % w == 0):
                        yield self.variant(rules=self.rules[:i] + ((t[:j] + t[j + w:], a),) + self.rules[i + 1:])

    def size(self):
        return (sum(len(t) * 2 + 4 + (a is not None) for t, a in self.rules) + len(self.s)
                + sum(3 * cpp.size(p) for _, p in self.imports) + (self.pos != (1, 1, 0)))

    def nontrivial(self):
        try:
            o = self.outcome()
        except Exception:
            return True
        return (o[0] == 'A' and o[2] > 0) or cpp.size(self.parser()) >= 3

    def labels(self):
        o = self.outcome()
        yield 'accept' if o[0] == 'A' else 'reject'
        if any(a for _, a in self.rules):
            yield 'with-action'
        if self.imports:
            yield 'with-import'
        if len(self.rules) > 1:
            yield 'many-rules'
        t = ''.join(t for t, _ in self.rules)
        for c, n in (('|', 'choice'), ('*', 'star'), ('+', 'plus'), ('(', 'brackets'), ('\\', 'escape')):
            if c in t:
                yield 'uses-' + n

    def to_json(self):
        return {'start': self.start, 'rules': self.rules, 'imports': self.imports, 'order': self.order,
                's': self.s, 'pos': self.pos}

    @classmethod
    def from_json(cls, d):
        f = cpp.freeze
        return cls(d['start'], f(d['rules']), f(d['imports']), f(d['order']), f(d['s']), f(d['pos']))

    def show(self):
        return '%s %r start=%s imports=%s on "%s"' % (
            type(self).__name__, self.rules, self.start,
            [(n, cpp.Renderer('').parser(p)) for n, p in self.imports], esc_chars(self.s))


class MalformedGrammar(Grammar):
    """Text outside of the language, or names that are not defined: must not
    compile."""
    def full_source(self, cfg):
        return '#include "mpv_base.hpp"\nstatic void case_0() { %s }\nint main() { case_0(); }\n' % self.code(cfg, 0)

    def applicable(self, cfg):
        # exactly one rule text is malformed; the rest would be fine
        return self.fits(cfg) and any(p is None for p in self.parsed())

    def evaluate_alone(self, ctx, cfg):
        d = ctx.newdir()
        try:
            src = os.path.join(d, 'malformed.cpp')
            open(src, 'w').write(self.full_source(cfg))
            rc, err = ctx.compile(cfg, src)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc == 0:
            return 'malformed rule text compiles'
        return None

    def nontrivial(self):
        return True

    def labels(self):
        yield 'malformed'


NAMES = ['S', 'a', 'b', 'xy', 'Rule_1', '_', '9lives', 'S2', 'aa', 'ab', 'plus_exp', 'T', 's']
CHARS = S('abcdxyz019+-*() |') + (10, 13, 9, 92, 39, 58, 61, 34, 95)
IMPORTS = [('int_',), ('token', ('int_',)), ('digit',), ('letter',), ('repeated1', ('space',)), ('keyword', S('ab'), 3),
           ('return_', 4), ('one_char',), ('fail', 5), ('optional', ('lit_c', 97), 6), ('spaces',)]


class GGen:
    def __init__(self, r, budget):
        self.r, self.budget = r, budget

    def expr(self, depth, names):
        r = self.r
        x = r.random()
        if depth <= 0 or x < 0.25:
            if names and r.random() < 0.4:
                return ('name', r.choice(names))
            c = r.choice(CHARS) if r.random() < 0.93 else r.choice([1, 127, -3, -100, 7, 60])
            return ('chr', c)
        if x < 0.5:
            return ('seq', self.expr(depth - 1, names), self.expr(depth - 1, names))
        if x < 0.75:
            return ('alt', self.expr(depth - 1, names), self.expr(depth - 1, names))
        return ('star' if x < 0.88 else 'plus', self.expr(depth - 1, names))

    def wide(self, names):
        """Long flat choices, long sequences, deep nesting."""
        r = self.r
        k = r.choice(['seq', 'alt', 'deep', 'rep', 'mix'])
        n = r.choice([5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 21, 24])
        atom = lambda: ('name', r.choice(names)) if names and r.random() < 0.3 else ('chr', r.choice(CHARS))
        if k in ('seq', 'alt'):
            e = self.expr(1, names)
            for _ in range(n):
                e = (k, e, atom() if r.random() < 0.8 else self.expr(1, names))
            return e
        e = atom()
        for _ in range(n if k != 'rep' else r.randint(2, 5)):
            if k == 'rep':
                e = (r.choice(['star', 'plus']), e)
            else:
                e = r.choice([('seq', e, atom()), ('seq', atom(), e), ('alt', e, atom()), ('alt', atom(), e),
                              (('plus' if r.random() < 0.5 else 'star'), e) if k == 'mix' else ('seq', atom(), ('alt', e, atom()))])
        return e

    def long_name(self):
        return ''.join(self.r.choice(ALNUM) for _ in range(self.r.randint(8, 40)))

    def grammar(self, limit):
        r = self.r
        big = limit > 60
        n = r.choice([1, 1, 2, 2, 3, 4]) if not big else r.choice([1, 2, 3, 5, 6, 7, 8, 10])
        names = r.sample(NAMES, n + 2)
        if big:
            for i in range(len(names)):
                if r.random() < 0.4:
                    x = self.long_name()
                    if r.random() < 0.5:      # names that share a long prefix
                        names[i] = x
                        names[(i + 1) % len(names)] = x[:-1] + r.choice(ALNUM) + r.choice(['', 'a'])
                    names[i] = x
            names = sorted(set(names), key=names.index)
            n = min(n, len(names) - 2)
        default = r.random() < 0.5
        if default:
            if 'S' in names:
                names.remove('S')
            names.insert(0, 'S')
        rule_names = names[:n]
        imp_names = names[n:n + r.choice([0, 1, 1, 2])] if r.random() < 0.5 else []
        imports = [(m, r.choice(IMPORTS)) for m in imp_names]
        rules = []
        for i, m in enumerate(rule_names):
            avail = rule_names[i + 1:] + imp_names
            for _ in range(20):
                e = self.expr(r.choice([1, 2, 2, 3]) if limit < 40 else r.choice([1, 2, 3, 4]), avail)
                if big and r.random() < 0.3:
                    e = self.wide(avail)
                if i == 0 and n > 1 and not names_in(e, set()):
                    if r.random() < 0.6:
                        e = ('seq', e, ('name', r.choice(avail)))
                t = m + ''.join(r.choice(WSP) for _ in range(r.choice([0, 0, 1, 2]))) + '::=' + \
                    ''.join(r.choice(WSP) for _ in range(r.choice([0, 0, 1, 2]))) + text_of(r, e)
                if len(t) <= limit:
                    break
            else:
                return None
            got = parse_rule(t)
            if got is None or got[0] != m or norm(got[1]) != norm(e):
                raise AssertionError('reference grammar parser disagrees with the printer: %r %r %r' % (t, e, got))
            a = (r.choice(['class', 'lambda']), r.randint(1, 9)) if r.random() < 0.4 else None
            rules.append((t, a))
        order = [('rule', i) for i in range(len(rules))] + [('import', i) for i in range(len(imports))]
        r.shuffle(order)
        start = None if default and r.random() < 0.9 else rule_names[0]
        if imports and r.random() < 0.04:
            start = imp_names[0]
        return start, rules, imports, order


def norm(e):
    """Brackets and left nesting are not observable in the text."""
    return e


def mutate(r, t):
    k = r.random()
    i = r.randrange(len(t))
    alpha = "'|*+()\\:=_a 9\nx#\"-"
    if k < 0.35:
        return t[:i] + t[i + 1:]
    if k < 0.7:
        return t[:i] + r.choice(alpha) + t[i:]
    if k < 0.9:
        return t[:i] + r.choice(alpha) + t[i + 1:]
    j = r.randrange(len(t))
    return t[:min(i, j)] + t[max(i, j):]


MALFORMED = ["S", "S::=", "::='a'", "S='a'", "S:='a'", "S::=|'a'", "S::='a'|", "S::='a'||'b'", "S::=('a'", "S::='a')",
             "S::=()", "S::=*", "S::=*'a'", "S::=+'a'", "S::='a", "S::=a'", "S::='ab'", "S::=''", "S::='\\x'", "S::='\\'",
             "S::='''", "S::='a' ?", "S::='a';", "S::=-", "S ::= 'a' ::= 'b'", "S T::='a'", "S-T::='a'", "S::=:'a'",
             "S::='a'|*", "S::=('a'|)", "S::=('a'))", "S:: ='a'", "S: :='a'", "", "S::=\"a\"", "S::='a'#", "S::='\\n", "S::='\\\\\\'",
             "S::=('a' 'b'", "S::='a'(", "S::='a' |", "S::= |", "S ::=", "S::=[ 'a' ]", "S::='a'.", "S::='a'/'b'"]


def C15(ctx):
    ctx.rule = ('random rule sets (1-4 rules, imports, actions as metafunction classes and placeholder '
                'expressions, shuffled definition order, random start symbol) printed with random spacing, '
                'brackets and escapes; oracle: the reference interpreter on the syntax tree; texts mutated '
                'character-wise and classified by an independent parser of the rule language: well-formed '
                'ones are executed, malformed ones must not compile. Non-trivial: input consumed or at '
                'least three parsers; every malformed text')
    pairs, bad = [], []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C15', ctx.tier, cfg.name)
        limit = min(cfg.string_limit, 60) if cfg.old else 60
        gg = GGen(r, 10)
        tg = gen.Gen(r, cfg.limits, 0.02)
        want = ctx.n(170, 1500)
        n = tries = m = 0
        while n < want and tries < want * 40:
            tries += 1
            large = not cfg.old and r.random() < ctx.n(0.07, 0.15)
            g = gg.grammar(260 if large else limit)
            if g is None:
                continue
            start, rules, imports, order = g
            base = Grammar(start, rules, imports, order, ())
            if not base.well_formed():
                continue
            try:
                p = base.parser()
                if cpp.size(p) > (400 if large else 90):
                    continue
                texts = [tg.text(p, min(60 if large else 20, cfg.max_text)) for _ in range(3)]
            except Discard:
                continue
            for t in texts[:r.choice([1, 2, 3])]:
                c = base.variant(text=t, pos=r.choice([(1, 1, 0), (1, 1, 0), (4, 7, 13)]))
                try:
                    if c.applicable(cfg):
                        pairs.append((cfg, c))
                        n += 1
                except RecursionError:
                    pass
            # mutated rule text
            for _ in range(2):
                i = r.randrange(len(rules))
                t2 = mutate(r, rules[i][0])
                if t2[:1] in WSP or not t2:
                    continue
                c = base.variant(rules=rules[:i] + [(t2, rules[i][1])] + rules[i + 1:], text=r.choice(texts))
                if parse_rule(t2) is None:
                    if m < ctx.n(22, 250):
                        # only malformed text: names stay defined
                        mc = MalformedGrammar(c.start, c.rules, c.imports, c.order, c.s)
                        if mc.applicable(cfg):
                            bad.append((cfg, mc))
                            m += 1
                elif c.applicable(cfg):
                    pairs.append((cfg, c))
                    n += 1
        mal = list(MALFORMED)
        r.shuffle(mal)
        for t in mal[:ctx.n(12, 100)]:
            if parse_rule(t) is not None:
                raise AssertionError('not malformed: %r' % t)
            mc = MalformedGrammar(None, ((t, None),) if parse_rule(t) is None else (), (), (('rule', 0),), S('a'))
            if mc.fits(cfg):
                bad.append((cfg, mc))
    ctx.evaluate(pairs, batch=40)
    ctx.map(lambda cc: alone(ctx, *cc), bad)
    ctx.extra['malformed_compiled_alone'] = len(bad)
