"""Reference model: an independent interpreter of the documented meaning of the
parsers, over the same abstract syntax the C++ code is generated from.

A parser is a nested tuple (kind, arg, arg, ...).  Text is a tuple of signed
character values.  Positions are (line, column, previous character).

Outcomes:
  ('A', result, index, position)     acceptance, text[index:] remains
  ('R', frozenset(messages), position)
Messages are sets because the documentation leaves open which of several
alternatives that failed at the same place an ordered choice reports.
"""

INT_MAX = 2**31 - 2      # boost::mpl::int_<2^31-1> does not compile (it has a ::next)


class Discard(Exception):
    """The case is outside of the domain (non-terminating fold, int overflow)."""


# ---------------------------------------------------------------- signatures
# c: character, C: tuple of characters, P: parser, PS: tuple of parsers,
# v: value, f: binary function id, g: unary function id, m: message id,
# i: integer, s: text, q: predicate, w: message/error function id
SPEC = {
    'one_char': '', 'digit': '', 'letter': '', 'alphanum': '', 'space': '',
    'spaces': '', 'digit_val': '', 'int_': '',
    'lit_c': 'c', 'lit': 'c', 'range_c': 'cc', 'range': 'cc',
    'one_of_c': 'C', 'one_char_except_c': 'C', 'one_char_except': 'C',
    'return_': 'v', 'fail': 'm', 'empty': 'v', 'always_c': 'cv',
    'keyword': 'sv', 'keyword0': 's',
    'sequence': 'Z', 'nth_of_c': 'iZ', 'nth_of': 'iZ', 'first_of': 'Z',
    'last_of': 'Z', 'middle_of': 'PPP', 'sequence_apply': 'gZ',
    'iterate_c': 'Pi', 'iterate': 'Pi', 'token': 'P',
    'one_of': 'Z', 'optional': 'Pv', 'optional0': 'P', 'if_': 'Pvv',
    'except': 'Pvm', 'look_ahead': 'P', 'fail_at_first_char_expected': 'P',
    'foldl': 'Pvf', 'foldl1': 'Pvf', 'foldl_reject_incomplete': 'Pvf',
    'foldl_reject_incomplete1': 'Pvf', 'foldl_start_with_parser': 'PPf',
    'foldl_reject_incomplete_start_with_parser': 'PPf',
    'foldr': 'Pvf', 'foldr1': 'Pvf', 'foldr_reject_incomplete': 'Pvf',
    'foldr_reject_incomplete1': 'Pvf', 'foldr_start_with_parser': 'PPf',
    'repeated': 'P', 'repeated1': 'P', 'repeated_reject_incomplete': 'P',
    'repeated_reject_incomplete1': 'P',
    'repeated_one_of': 'Z', 'repeated_one_of1': 'Z',
    'transform': 'Pg', 'transform_error': 'Pw', 'transform_error_message': 'Pw',
    'recover': 'Pv', 'move_error': 'Pii', 'change_error_message': 'Pm', 'accept_when': 'Pqm', 'always': 'Pv',
    'entire_input': 'Pm', 'entire_input0': 'P',
}

ANY = '\x01'          # unspecified result
VOID = '\x02'         # C++ void: may not be passed to functions

EOI = 'Unexpected end of input'
NONE = 'None of the expected cases found'
UNEXP = 'Unexpected character'
DIGIT = 'Digit expected'
LETTER = 'Letter expected'
WS = 'Whitespace expected'
END = 'End of input expected'
TOFAIL = 'Parser expected to fail'


def s8(x):
    x &= 255
    return x - 256 if x > 127 else x


def chr_text(c):
    """Text of a message containing character c (bytes as latin-1)."""
    return chr(c & 255)


def lit_msg(c):
    return 'Expected: ' + chr_text(c)


def user_msg(m):
    return 'user message %d' % m


def wrapped(w, msg):
    return 'wrapped %d <%s>' % (w, msg)


def advance(pos, c):
    line, col, prev = pos
    if c == 13 or (c == 10 and prev != 13):
        return (line + 1, 1, c)
    return (line, col + 1, c)


def is_digit(c):
    return 48 <= c <= 57


def is_letter(c):
    return 65 <= c <= 90 or 97 <= c <= 122


def is_space(c):
    return c in (32, 9, 10, 13)


def pred_holds(q, result):
    kind = q[0]
    if kind == 'true':
        return True
    if kind == 'false':
        return False
    v = int(result)
    if kind == 'range':
        return q[1] <= v <= q[2]
    if kind == 'mod':
        return v % q[1] == q[2]
    raise AssertionError(q)


def R(msg, pos):
    return ('R', frozenset([msg]), pos)


def seq_text(rs):
    return '[' + ' '.join(rs) + ']'


def val_text(v):
    return 'val%d' % v


def call(fid, *args):
    if VOID in args:
        raise Discard('void is not a metaprogramming value')
    return '(%d %s)' % (fid, ' '.join(args))


class Model:
    def __init__(self, max_steps=20000):
        self.max_steps = max_steps
        self.steps = 0
        self.rec = {}
        self.examined = 0   # highest index looked at (exclusive)

    def run(self, p, s, pos=(1, 1, 0)):
        self.steps = 0
        self.examined = 0
        return self.ev(p, s, 0, pos)

    # -- helpers
    def char(self, s, i, pos, ok, miss, eoi=EOI):
        self.examined = max(self.examined, min(i + 1, len(s) + 1))
        if i >= len(s):
            return ('R', eoi if isinstance(eoi, frozenset) else frozenset([eoi]), pos)
        c = s[i]
        if ok(c):
            return ('A', str(c), i + 1, advance(pos, c))
        return ('R', miss if isinstance(miss, frozenset) else frozenset([miss]), pos)

    def seq(self, ps, s, i, pos):
        rs = []
        for p in ps:
            r = self.ev(p, s, i, pos)
            if r[0] == 'R':
                return r
            rs.append(r[1])
            i, pos = r[2], r[3]
        return ('A', rs, i, pos)

    def many(self, p, s, i, pos):
        """results, index, position, final error"""
        rs = []
        while True:
            r = self.ev(p, s, i, pos)
            if r[0] == 'R':
                return rs, i, pos, r
            if r[2] == i:
                raise Discard('non-consuming repetition')
            rs.append(r[1])
            i, pos = r[2], r[3]

    def ev(self, p, s, i, pos):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Discard('too many steps')
        return getattr(self, 'k_' + p[0])(p, s, i, pos)

    # -- leaves
    def k_one_char(self, p, s, i, pos):
        return self.char(s, i, pos, lambda c: True, '')

    def k_digit(self, p, s, i, pos):
        return self.char(s, i, pos, is_digit, DIGIT, DIGIT)

    def k_digit_val(self, p, s, i, pos):
        r = self.char(s, i, pos, is_digit, DIGIT, DIGIT)
        return r if r[0] == 'R' else ('A', str(int(r[1]) - 48), r[2], r[3])

    def k_letter(self, p, s, i, pos):
        return self.char(s, i, pos, is_letter, LETTER)

    def k_alphanum(self, p, s, i, pos):
        return self.k_one_of(('one_of', (('letter',), ('digit',))), s, i, pos)

    def k_space(self, p, s, i, pos):
        return self.char(s, i, pos, is_space, WS)

    def k_spaces(self, p, s, i, pos):
        return self.k_repeated1(('repeated1', ('space',)), s, i, pos)

    def k_int_(self, p, s, i, pos):
        rs, j, q, e = self.many(('digit_val',), s, i, pos)
        if not rs:
            return e
        v = int(''.join(rs))
        if v > INT_MAX:
            raise Discard('int overflow')
        return ('A', str(v), j, q)

    def k_lit_c(self, p, s, i, pos):
        m = lit_msg(p[1])
        return self.char(s, i, pos, lambda c: c == p[1], m, m)

    k_lit = k_lit_c

    def k_range_c(self, p, s, i, pos):
        return self.char(s, i, pos, lambda c: p[1] <= c <= p[2], UNEXP)

    k_range = k_range_c

    def k_one_of_c(self, p, s, i, pos):
        miss = frozenset([NONE] + [lit_msg(c) for c in p[1]])
        return self.char(s, i, pos, lambda c: c in p[1], miss, miss | {EOI})

    def k_one_char_except_c(self, p, s, i, pos):
        return self.char(s, i, pos, lambda c: c not in p[1], UNEXP)

    k_one_char_except = k_one_char_except_c

    def k_return_(self, p, s, i, pos):
        return ('A', val_text(p[1]), i, pos)

    def k_fail(self, p, s, i, pos):
        return R(user_msg(p[1]), pos)

    def k_empty(self, p, s, i, pos):
        self.examined = max(self.examined, i + 1)
        if i >= len(s):
            return ('A', val_text(p[1]), i, pos)
        return R(END, pos)

    def k_always_c(self, p, s, i, pos):
        r = self.k_lit_c(('lit_c', p[1]), s, i, pos)
        return r if r[0] == 'R' else ('A', val_text(p[2]), r[2], r[3])

    def k_keyword(self, p, s, i, pos):
        for c in p[1]:
            r = self.k_lit_c(('lit_c', c), s, i, pos)
            if r[0] == 'R':
                return r
            i, pos = r[2], r[3]
        return ('A', val_text(p[2]) if p[0] == 'keyword' else ANY, i, pos)

    k_keyword0 = k_keyword

    # -- sequencing
    def k_sequence(self, p, s, i, pos):
        r = self.seq(p[1], s, i, pos)
        return r if r[0] == 'R' else ('A', seq_text(r[1]), r[2], r[3])

    def k_nth_of_c(self, p, s, i, pos):
        n, ps = p[1], p[2]
        if not 0 <= n < len(ps):
            return R('index (%d) out of range [0-%d]' % (n, len(ps) - 1), pos)
        r = self.seq(ps, s, i, pos)
        return r if r[0] == 'R' else ('A', r[1][n], r[2], r[3])

    k_nth_of = k_nth_of_c

    def k_first_of(self, p, s, i, pos):
        return self.k_nth_of_c(('nth_of_c', 0, p[1]), s, i, pos)

    def k_last_of(self, p, s, i, pos):
        if not p[1]:     # which index is reported is not documented
            return ('R', frozenset('index (%d) out of range [0--1]' % n
                                   for n in (0, -1)), pos)
        return self.k_nth_of_c(('nth_of_c', len(p[1]) - 1, p[1]), s, i, pos)

    def k_middle_of(self, p, s, i, pos):
        r1 = self.ev(p[1], s, i, pos)
        if r1[0] == 'R':
            return r1
        r2 = self.ev(p[2], s, r1[2], r1[3])
        if r2[0] == 'R':
            return r2
        r3 = self.ev(p[3], s, r2[2], r2[3])
        if r3[0] == 'R':
            return ('R', frozenset('%s (see %d:%d)' % (m, pos[0], pos[1])
                                   for m in r3[1]), r3[2])
        return ('A', r2[1], r3[2], r3[3])

    def k_sequence_apply(self, p, s, i, pos):
        r = self.seq(p[2], s, i, pos)
        if r[0] == 'R':
            return r
        return ('A', call(p[1], *r[1]), r[2], r[3])

    def k_iterate_c(self, p, s, i, pos):
        r = self.seq((p[1],) * p[2], s, i, pos)
        return r if r[0] == 'R' else ('A', seq_text(r[1]), r[2], r[3])

    k_iterate = k_iterate_c

    def k_token(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        if r[0] == 'R':
            return r
        _, j, q, _ = self.many(('space',), s, r[2], r[3])
        return ('A', r[1], j, q)

    # -- choice
    def k_one_of(self, p, s, i, pos):
        best, msgs = pos, {NONE}
        for n, a in enumerate(p[1]):
            r = self.ev(a, s, i, pos)
            if r[0] == 'A':
                # the library instantiates the other alternatives as well:
                # they have to be inside the domain (may raise Discard)
                ex = self.examined
                for b in p[1][n + 1:]:
                    self.ev(b, s, i, pos)
                self.examined = ex
                return r
            if r[2] > best:
                best, msgs = r[2], set(r[1])
            elif r[2] == best:
                msgs |= r[1]
        return ('R', frozenset(msgs), best)

    def k_optional(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        if r[0] == 'A':
            return r
        return ('A', val_text(p[2]) if p[0] == 'optional' else VOID, i, pos)

    k_optional0 = k_optional

    def k_if_(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        return ('A', val_text(p[2] if r[0] == 'A' else p[3]), i, pos)

    def k_except(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        if r[0] == 'A':
            return R(user_msg(p[3]), pos)
        return ('A', val_text(p[2]), i, pos)

    def k_look_ahead(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        return r if r[0] == 'R' else ('A', r[1], i, pos)

    def k_fail_at_first_char_expected(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        if r[0] == 'A':
            return R(TOFAIL, pos)
        if r[2] == pos:
            return ('A', ANY, i, pos)
        return r

    # -- folds
    def foldl(self, p, s, i, pos, state, at_least_one=False, strict=False):
        if state == VOID:
            raise Discard('void state')
        rs, j, q, e = self.many(p[1], s, i, pos)
        if at_least_one and not rs:
            return e
        if strict and e[2] != q:
            return e
        for r in rs:
            state = call(p[3], state, r)
        return ('A', state, j, q)

    def k_foldl(self, p, s, i, pos):
        return self.foldl(p, s, i, pos, val_text(p[2]))

    def k_foldl1(self, p, s, i, pos):
        return self.foldl(p, s, i, pos, val_text(p[2]), True)

    def k_foldl_reject_incomplete(self, p, s, i, pos):
        return self.foldl(p, s, i, pos, val_text(p[2]), False, True)

    def k_foldl_reject_incomplete1(self, p, s, i, pos):
        return self.foldl(p, s, i, pos, val_text(p[2]), True, True)

    def k_foldl_start_with_parser(self, p, s, i, pos, strict=False):
        r = self.ev(p[2], s, i, pos)
        if r[0] == 'R':
            return r
        return self.foldl(p, s, r[2], r[3], r[1], False, strict)

    def k_foldl_reject_incomplete_start_with_parser(self, p, s, i, pos):
        return self.k_foldl_start_with_parser(p, s, i, pos, True)

    def foldr(self, p, s, i, pos, state, at_least_one=False, strict=False):
        rs, j, q, e = self.many(p[1], s, i, pos)
        if at_least_one and not rs:
            return e
        if strict and e[2] != q:
            return e
        if isinstance(state, tuple):
            r = self.ev(state, s, j, q)
            if r[0] == 'R':
                return r
            state, j, q = r[1], r[2], r[3]
        for r in reversed(rs):
            state = call(p[3], state, r)
        return ('A', state, j, q)

    def k_foldr(self, p, s, i, pos):
        return self.foldr(p, s, i, pos, val_text(p[2]))

    def k_foldr1(self, p, s, i, pos):
        return self.foldr(p, s, i, pos, val_text(p[2]), True)

    def k_foldr_reject_incomplete(self, p, s, i, pos):
        return self.foldr(p, s, i, pos, val_text(p[2]), False, True)

    def k_foldr_reject_incomplete1(self, p, s, i, pos):
        return self.foldr(p, s, i, pos, val_text(p[2]), True, True)

    def k_foldr_start_with_parser(self, p, s, i, pos):
        return self.foldr(p, s, i, pos, p[2])

    def rep(self, x, s, i, pos, one, strict):
        rs, j, q, e = self.many(x, s, i, pos)
        if one and not rs:
            return e
        if strict and e[2] != q:
            return e
        return ('A', seq_text(rs), j, q)

    def k_repeated(self, p, s, i, pos):
        return self.rep(p[1], s, i, pos, False, False)

    def k_repeated1(self, p, s, i, pos):
        return self.rep(p[1], s, i, pos, True, False)

    def k_repeated_reject_incomplete(self, p, s, i, pos):
        return self.rep(p[1], s, i, pos, False, True)

    def k_repeated_reject_incomplete1(self, p, s, i, pos):
        return self.rep(p[1], s, i, pos, True, True)

    def k_repeated_one_of(self, p, s, i, pos):
        return self.rep(('one_of', p[1]), s, i, pos, False, False)

    def k_repeated_one_of1(self, p, s, i, pos):
        return self.rep(('one_of', p[1]), s, i, pos, True, False)

    # -- transforming
    def k_transform(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        return r if r[0] == 'R' else ('A', call(p[2], r[1]), r[2], r[3])

    def k_transform_error(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        if r[0] == 'A':
            return r
        return ('R', frozenset(wrapped(p[2], m) for m in r[1]), r[2])

    k_transform_error_message = k_transform_error

    def k_recover(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        if r[0] == 'A':
            return r
        return ('A', val_text(p[2]), len(s), r[2])

    def k_move_error(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        return r if r[0] == 'A' else ('R', r[1], (p[2], p[3], 109))

    def k_change_error_message(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        return r if r[0] == 'A' else R(user_msg(p[2]), pos)

    def k_accept_when(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        if r[0] == 'R':
            return r
        if p[2][0] not in ('true', 'false') and not r[1].lstrip('-').isdigit():
            raise Discard('predicate on a non-integral result')
        return r if pred_holds(p[2], r[1]) else R(user_msg(p[3]), pos)

    def k_always(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        return r if r[0] == 'R' else ('A', val_text(p[2]), r[2], r[3])

    def k_entire_input(self, p, s, i, pos):
        r = self.ev(p[1], s, i, pos)
        if r[0] == 'R':
            return r
        self.examined = max(self.examined, r[2] + 1)
        if r[2] < len(s):
            return R(END if p[0] == 'entire_input0' else user_msg(p[2]), r[3])
        return r

    k_entire_input0 = k_entire_input

    # -- recursive parsers: ('rec', id) refers to self.rec[id]
    def k_rec(self, p, s, i, pos):
        return self.ev(self.rec[p[1]], s, i, pos)


# ------------------------------------------------------------- serialisation
def escape(text):
    out = []
    for ch in text:
        o = ord(ch)
        out.append(ch if 32 < o < 127 and ch != '\\' else '\\%02x' % o)
    return ''.join(out)


def esc_chars(cs):
    return escape(''.join(chr(c & 255) for c in cs))


def pos_text(pos):
    return '%d:%d:%d' % pos


def render(outcome, s):
    """Set of allowed printed forms (result may contain ANY)."""
    if outcome[0] == 'A':
        return {'A|%s|%s|%s' % (outcome[1].replace(VOID, ANY), esc_chars(s[outcome[2]:]),
                                pos_text(outcome[3]))}
    return {'R|%s|%s' % (escape(m), pos_text(outcome[2])) for m in outcome[1]}
