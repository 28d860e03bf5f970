"""Cases that are a piece of code with an exactly known output."""
from . import cpp
from .engine import Case
from .model import escape


class Probe(Case):
    """data: a JSON-able tuple; subclasses render it and predict the output."""
    def __init__(self, *data):
        self.d = data

    def expect(self, cfg):
        raise NotImplementedError

    def judge(self, cfg, payload):
        e = self.expect(cfg)
        if payload == e:
            return None
        return 'expected %s, got %s' % (e, payload)

    def to_json(self):
        return list(self.d)

    @classmethod
    def from_json(cls, d):
        return cls(*[cpp.freeze(x) for x in d])

    def show(self):
        return type(self).__name__ + repr(self.d)

    def labels(self):
        yield type(self).__name__


def chars_escaped(cs):
    return escape(''.join(chr(c & 255) for c in cs))


def boxed(c, kind):
    return {'char_': 'boost::mpl::char_<%s>', 'int_': 'boost::mpl::int_<%s>',
            'integral_c': 'boost::mpl::integral_c<char,%s>',
            'lazy': 'mpv::lazy<boost::mpl::char_<%s> >'}[kind] % cpp.ch(c)
