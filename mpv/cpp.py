"""Rendering of abstract parsers, texts and positions as C++ (C++98 syntax)."""
from .model import SPEC

PRINTABLE = set(range(32, 127)) - {39, 92}


def ch(c):
    """A character constant (as a template argument of type char, int or long)."""
    if c in PRINTABLE:
        return "'%s'" % chr(c)
    return str(c)


def box(c):
    return 'boost::mpl::char_<%s>' % ch(c)


def tmpl(name, args):
    if not args:
        return name + '<>'
    s = ','.join(args)
    return '%s<%s%s' % (name, s, ' >' if s.endswith('>') else '>')


NS = 'boost::metaparse::'
BASIC = {'one_char', 'digit', 'letter', 'alphanum', 'space', 'spaces',
         'digit_val', 'int_'}


class Renderer:
    def __init__(self, ns=NS, string=None):
        self.ns = ns
        self.rec_names = {}
        self.string = string or (lambda cs: tmpl(ns + 'string', [ch(c) for c in cs]))

    def arg(self, kind, a):
        if kind == 'c':
            return [ch(a)]
        if kind == 'C':
            return [ch(c) for c in a]
        if kind == 'P':
            return [self.parser(a)]
        if kind == 'Z':
            return [self.parser(x) for x in a]
        if kind == 'v':
            return ['mpv::val<%d>' % a]
        if kind == 'f':
            return ['mpv::fun2<%d>' % a]
        if kind == 'g':
            return ['mpv::fun1<%d>' % a]
        if kind == 'm':
            return ['mpv::msg<%d>' % a]
        if kind == 'i':
            return [str(a)]
        if kind == 's':
            return [self.string(a)]
        if kind == 'q':
            return [{'true': 'mpv::pred_const<true>',
                     'false': 'mpv::pred_const<false>'}.get(a[0]) or
                    'mpv::pred_%s<%s,%s>' % a]
        raise AssertionError(kind)

    def parser(self, p):
        k = p[0]
        ns = self.ns
        if k == 'rec':
            return self.rec_names[p[1]]
        if k in BASIC:
            return ns + k
        if k in ('lit', 'range'):
            return tmpl(ns + k, [box(c) for c in p[1:]])
        if k == 'one_char_except':
            return tmpl(ns + k, [box(c) for c in p[1]])
        if k == 'nth_of':
            return tmpl(ns + k, ['boost::mpl::int_<%d>' % p[1]] +
                        [self.parser(x) for x in p[2]])
        if k == 'iterate':
            return tmpl(ns + k, [self.parser(p[1]), 'boost::mpl::int_<%d>' % p[2]])
        if k == 'sequence_apply':
            n = len(p[2])
            return tmpl(ns + 'sequence_apply%d' % n,
                        ['mpv::tmpl<%d>::t%d' % (p[1], n)] +
                        [self.parser(x) for x in p[2]])
        if k == 'transform_error':
            return tmpl(ns + k, [self.parser(p[1]), 'mpv::wrap_err<%d>' % p[2]])
        if k == 'transform_error_message':
            return tmpl(ns + k, [self.parser(p[1]), 'mpv::wrap_msg<%d>' % p[2]])
        if k == 'recover':
            return tmpl(ns + 'transform_error', [self.parser(p[1]), 'mpv::recover_err<%d>' % p[2]])
        if k == 'move_error':
            return tmpl(ns + 'transform_error', [self.parser(p[1]), 'mpv::move_err<%d,%d>' % p[2:]])
        name = k[:-1] if k in ('keyword0', 'optional0', 'entire_input0') else k
        args = []
        for sig, a in zip(SPEC[k], p[1:]):
            args += self.arg(sig, a)
        return tmpl(ns + name, args)


def position(pos):
    if pos == (1, 1, 0):
        return NS + 'start'
    return 'mpv::pos<%d,%d,%d>::type' % pos


def text(cs, rep='string', cfg=None):
    """A compile-time text holding cs."""
    if rep == 'string':
        return tmpl(NS + 'string', [ch(c) for c in cs])
    if rep == 'literal':
        return NS[:0] + 'BOOST_METAPARSE_STRING(%s)' % literal(cs)
    if rep in ('list_c', 'vector_c'):
        return tmpl('boost::mpl::' + rep, ['char'] + [ch(c) for c in cs])
    if rep in ('list', 'vector', 'deque'):
        return tmpl('boost::mpl::' + rep, [box(c) for c in cs])
    if rep == 'push_list':       # any length
        s = 'boost::mpl::list<>'
        for c in reversed(cs):
            s = 'boost::mpl::push_front<%s,%s >::type' % (s, box(c))
        return s
    if rep in ('cons', 'slim'):  # user defined forward sequences
        s = 'mpv::nil' if rep == 'cons' else 'mpv::slim_end'
        for c in reversed(cs):
            s = 'mpv::%s<%s,%s>' % (rep, ch(c), s + (' ' if s.endswith('>') else ''))
        return s
    if rep == 'mpl_string':
        return tmpl('boost::mpl::string', ["'%s'" % ''.join(map(chr, cs[i:i + 4])) for i in range(0, len(cs), 4)])
    raise AssertionError(rep)


def literal(cs):
    out = []
    prev_esc = False
    for c in cs:
        u = c & 255
        if 32 <= u < 127 and chr(u) not in '"\\?':
            out.append(chr(u))
        else:
            out.append('\\%03o' % u)
    return '"%s"' % ''.join(out)


# --------------------------------------------------------------- inspection
def kids(p):
    if p[0] == 'rec':
        return
    for sig, a in zip(SPEC[p[0]], p[1:]):
        if sig == 'P':
            yield a
        elif sig == 'Z':
            for x in a:
                yield x


def size(p):
    return 1 + sum(size(x) for x in kids(p)) + sum(
        len(a) for sig, a in zip(SPEC.get(p[0], ''), p[1:]) if sig in 'Cs')


def kinds(p, acc=None):
    acc = set() if acc is None else acc
    acc.add(p[0])
    for x in kids(p):
        kinds(x, acc)
    return acc


def depth(p):
    return 1 + max([depth(x) for x in kids(p)] or [0])


def max_arity(p, ks):
    """Largest number of list arguments used with any kind in ks."""
    best = 0
    for sig, a in zip(SPEC.get(p[0], ''), p[1:]):
        if sig in 'ZC' and p[0] in ks:
            best = max(best, len(a))
    for x in kids(p):
        best = max(best, max_arity(x, ks))
    return best


def freeze(x):
    """JSON lists back to tuples."""
    if isinstance(x, list):
        return tuple(freeze(y) for y in x)
    return x
