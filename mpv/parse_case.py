"""The basic case: apply a generated parser to a generated text."""
import re
from . import cpp, gen
from .engine import Case
from .model import Model, Discard, render, ANY, esc_chars


def matches(allowed, payload):
    if payload in allowed:
        return True
    for a in allowed:
        if ANY in a:
            if re.fullmatch('.+'.join(re.escape(x) for x in a.split(ANY)),
                            payload, re.S):
                return True
    return False


class ParseCase(Case):
    def __init__(self, parser, text, pos=(1, 1, 0), rep='string', rec=()):
        self.p, self.s, self.pos, self.rep = parser, tuple(text), tuple(pos), rep
        self.rec = tuple(rec)          # recursive parser definitions
        self._out = None

    def outcome(self):
        if self._out is None:
            m = Model()
            m.rec = dict(enumerate(self.rec))
            self._out = m.run(self.p, self.s, self.pos)
            self.examined = m.examined
        return self._out

    def renderer(self, cfg, k):
        r = cpp.Renderer()
        r.rec_names = {i: 'rec_%d_%d' % (k, i) for i in range(len(self.rec))}
        return r

    def decls(self, cfg, k):
        if not self.rec:
            return ''
        r = self.renderer(cfg, k)
        out = ['struct %s;' % n for n in r.rec_names.values()]
        for i, d in enumerate(self.rec):
            out.append('struct %s : %s {};' % (r.rec_names[i], r.parser(d)))
        return ' '.join(out)

    def code(self, cfg, k):
        return 'mpv::parse<%s, %s, %s >();' % (
            self.renderer(cfg, k).parser(self.p), cpp.text(self.s, self.rep, cfg),
            cpp.position(self.pos))

    def judge(self, cfg, payload):
        allowed = render(self.outcome(), self.s)
        if matches(allowed, payload):
            return None
        return 'expected %s, got %s' % (
            ' or '.join(sorted(x.replace(ANY, '<any>') for x in allowed)), payload)

    def applicable(self, cfg):
        try:
            self.outcome()
        except Discard:
            return False
        if self.rep in ('string', 'literal') and (
                len(self.s) > cfg.max_text or cfg.no_ff and -1 in self.s) or not self.rep_ok(cfg):
            return False
        lim = cfg.hard
        return (cpp.max_arity(self.p, gen.SEQ_KINDS) <= lim['seq'] and
                cpp.max_arity(self.p, {'one_of', 'repeated_one_of', 'repeated_one_of1'}) <= lim['one_of'] and
                cpp.max_arity(self.p, {'one_of_c'}) <= lim['one_of'] - cfg.old and
                cpp.max_arity(self.p, gen.OCE_KINDS) <= lim['oce'] and
                cpp.max_arity(self.p, {'sequence_apply'}) <= lim['apply'] and
                self.legal(self.p, cfg))

    def rep_ok(self, cfg):
        if self.rep == 'literal':
            return not cfg.old and len(self.s) <= cfg.string_limit
        if self.rep in ('list', 'vector', 'deque', 'list_c', 'vector_c'):
            return len(self.s) <= (20 if self.rep in ('list', 'vector', 'deque') else 19)
        if self.rep == 'mpl_string':
            return len(self.s) <= 30 and all(c in cpp.PRINTABLE for c in self.s)
        return True

    def legal(self, p, cfg):
        k = p[0]
        if k == 'sequence' and cfg.old and not p[1]:
            return False
        if k == 'sequence_apply' and not p[2]:
            return False
        if k in ('keyword', 'keyword0') and (
                cfg.no_ff and -1 in p[1] or cfg.old and len(p[1]) > cfg.string_limit):
            return False
        return all(self.legal(x, cfg) for x in cpp.kids(p))

    def size(self):
        return 3 * cpp.size(self.p) + len(self.s) + (self.pos != (1, 1, 0)) + \
            sum(3 * cpp.size(r) for r in self.rec) + (self.rep != 'string')

    def variant(self, **k):
        a = dict(parser=self.p, text=self.s, pos=self.pos, rep=self.rep, rec=self.rec)
        a.update(k)
        return type(self)(**a)

    def shrinks(self):
        if self.pos != (1, 1, 0):
            yield self.variant(pos=(1, 1, 0))
        if self.rep != 'string':
            yield self.variant(rep='string')
        for s in gen.shrink_text(self.s):
            yield self.variant(text=s)
        for p in gen.shrink_parser(self.p):
            yield self.variant(parser=p)

    def nontrivial(self):
        # the outcome depends on more than the first character: something was
        # consumed, or an error was reported past the start, or the parser has
        # at least three nodes
        try:
            o = self.outcome()
        except Discard:
            return False
        if o[0] == 'A':
            return o[2] > 0 or cpp.size(self.p) >= 3
        return o[2] != self.pos or cpp.size(self.p) >= 3

    RULE = ('the parser consumed input, or rejected past the starting position, '
            'or is composed of at least three parsers')

    def labels(self):
        o = self.outcome()
        yield 'accept' if o[0] == 'A' else 'reject'
        if o[0] == 'A' and o[2] > 0:
            yield 'accept-consuming'
        if o[0] == 'A' and o[2] == len(self.s):
            yield 'accept-all'
        if o[0] == 'R' and o[2] != self.pos:
            yield 'reject-after-progress'
        if any(c in (10, 13) for c in self.s):
            yield 'has-newline'
        yield 'root:' + self.p[0]

    def to_json(self):
        d = {'p': self.p, 's': self.s, 'pos': self.pos}
        if self.rep != 'string':
            d['rep'] = self.rep
        if self.rec:
            d['rec'] = self.rec
        return d

    @classmethod
    def from_json(cls, d):
        f = cpp.freeze
        return cls(f(d['p']), f(d['s']), f(d['pos']), d.get('rep', 'string'),
                   f(d.get('rec', [])))

    def show(self):
        r = cpp.Renderer('')
        r.rec_names = {i: 'rec%d' % i for i in range(len(self.rec))}
        recs = ''.join(' where %s = %s' % (r.rec_names[i], r.parser(d))
                       for i, d in enumerate(self.rec))
        return '%s on "%s" at %d:%d:%d%s%s' % (
            (r.parser(self.p), esc_chars(self.s)) + self.pos +
            ('' if self.rep == 'string' else ' as ' + self.rep, recs))
