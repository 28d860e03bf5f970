"""C16 configurations, C19 representations of the text, C21 headers."""
import os
import shutil
from . import cpp, gen
from .engine import CFGS, Case, Failure, run, first_error
from .gen import Gen, rng_for, COMBINATORS, LEAVES
from .model import SPEC, render, ANY, VOID, escape, pos_text
from .parse_case import ParseCase, matches
from .checks_parse import cfgs, pick, random_cases, S, QUICK, FULL, seq_sweep, choice_sweep, arities
from .checks_build import alone, BuiltCase
from .checks_string import StringOps, rand_ops, rand_char
from .checks_basic import CmpCase, set_sweep
from . import checks_grammar as GR


# ------------------------------------------------------------------------ C16
def random_cfg(r):
    """A random admissible configuration."""
    cxx = r.choice(['g++', 'clang++'])
    std = r.choice([98, 98, 98, 11, 14, 17, 20])
    impl = 0
    if std != 98 and r.random() < 0.4:
        impl = r.choice([1998, 2011] if std >= 14 else [1998])
    return 'dyn:%s:%d:%d:%d:%d:%d:%d' % (cxx, std, impl, r.randint(4, 12), r.randint(6, 20), r.randint(3, 16),
                                        r.choice([20, 24, 31, 33, 48, 64, 90]))


def C16(ctx):
    ctx.rule = ('one set of random parser/text cases (sequences, choices, sets and strings within the '
                'smallest limits), strings histories, comparisons and grammars evaluated under every '
                'standard, implementation and compiler, and under random values of the four size limits; '
                'plus, per limit value, uses right at that limit. All configurations must agree with the '
                'same reference outcome. Non-trivial: ' + ParseCase.RULE)
    names = sorted(set(QUICK + ['g14', 'c11', 'c17', 'g20', 'g98S', 'c17i98'])) if ctx.quick() else list(FULL)
    r = rng_for(ctx.seed, 'C16', ctx.tier)
    dyn = [random_cfg(r) for _ in range(ctx.n(8, 40))]
    cfg_list = [CFGS[n] for n in names + dyn]
    # the common cases: generated for a virtual smallest configuration
    small = CFGS['dyn:g++:98:0:4:6:3:20']
    common = [c for _, c in random_cases(ctx, small, 'common', ctx.n(220, 2500), COMBINATORS + ['entire_input0'], (), (2, 4), 20)]
    grammars = []
    gg = GR.GGen(r, 10)
    tg = Gen(r, small.limits, 0.02)
    while len(grammars) < ctx.n(14, 150):
        g = gg.grammar(20)
        if g is None:
            continue
        base = GR.Grammar(*g, ())
        try:
            if not base.well_formed() or cpp.size(base.parser()) > 40:
                continue
            c = base.variant(text=tg.text(base.parser(), 12))
            if c.applicable(small):
                grammars.append(c)
        except GR.Discard:
            continue
    pairs = []
    for cfg in cfg_list:
        rr = rng_for(ctx.seed, 'C16', ctx.tier, cfg.name)
        pairs += [(cfg, c) for c in common if c.applicable(cfg)]
        pairs += [(cfg, c) for c in grammars if c.applicable(cfg)]
        if cfg.name.startswith('dyn:') or not ctx.quick():
            # at the limits of this very configuration
            pairs += pick(ctx, cfg, 'seq', seq_sweep(range(max(0, cfg.hard['seq'] - 1), cfg.hard['seq'] + 1) if cfg.old else [10, 11, 12, 20, 21]), ctx.n(40, 300))
            pairs += pick(ctx, cfg, 'choice', choice_sweep(arities(cfg, 'one_of', 3) if cfg.old else [1, 3, 20, 21, 24], rr), ctx.n(40, 300))
            pairs += pick(ctx, cfg, 'set', [c for c in set_sweep(cfg) if len(c.p[1]) >= min(cfg.hard['oce'], cfg.hard['one_of']) - 1 or not cfg.old], ctx.n(30, 300))
            for n in (cfg.max_text - 1, cfg.max_text):
                t = tuple(rr.choice(S('ab\n\r0')) for _ in range(n))
                for p in (('repeated', ('one_char',)), ('keyword', t, 1), ('entire_input0', ('iterate_c', ('one_char',), n)),
                          ('foldr', ('one_of_c', S('ab\n\r0')), 1, 2), ('last_of', (('iterate_c', ('one_char',), n - 1), ('digit',)))):
                    c = ParseCase(p, t)
                    if c.applicable(cfg):
                        pairs.append((cfg, c))
        for _ in range(ctx.n(12, 60)):
            pairs.append((cfg, rand_string_case(rr, cfg)))
    ctx.evaluate([(c, k) for c, k in pairs if k.applicable(c)])
    ctx.extra['configurations_compared'] = len(cfg_list)


def rand_string_case(r, cfg):
    hi = cfg.string_limit if cfg.old else 40
    n0 = r.randint(0, hi)
    init = tuple(rand_char(r, cfg.no_ff) for _ in range(n0))
    return StringOps(init, rand_ops(r, cfg, n0, r.randint(1, 6), hi))


# ------------------------------------------------------------------------ C19
REPS = ['list', 'vector', 'deque', 'list_c', 'vector_c', 'push_list', 'cons', 'slim', 'literal', 'mpl_string']


def C19(ctx):
    ctx.rule = ('random parsers and texts, each text held as a compile-time string, MPL list, vector, deque, '
                'list_c, vector_c, MPL string, a list longer than the MPL size limit, user defined sequence types (one offering nothing but empty, front and pop_front) and a '
                'string literal; the outcome and the remaining characters must be those of the reference '
                'interpreter for every one. Non-trivial: ' + ParseCase.RULE)
    pairs = []
    for cfg in cfgs(ctx):
        r = rng_for(ctx.seed, 'C19', ctx.tier, cfg.name)
        cases = [c for _, c in random_cases(ctx, cfg, 'rnd', ctx.n(300, 1200), COMBINATORS + LEAVES + ['entire_input0'], (), (1, 4), 22)]
        for c in cases:
            if c.p[0] == 'recover':
                continue
            for rep in ['slim', 'mpl_string'] + r.sample(REPS[:-1], ctx.n(3, len(REPS) - 1)):
                v = c.variant(rep=rep)
                if v.applicable(cfg):
                    pairs.append((cfg, v))
        for _ in range(ctx.n(25, 150)):           # lengths at and over the MPL limits, and over the string limit
            rep = r.choice(REPS)
            n = r.choice([0, 1, 19, 20, 21, 40, 70, 130, 260]) if rep in ('push_list', 'cons', 'slim') else r.choice([0, 1, 2, 10, 18, 19, 20])
            t = tuple(r.choice(S('abc\n\r 019') + (0, -1, -128, 127)) for _ in range(n))
            p = r.choice([('repeated', ('one_char',)), ('foldr', ('one_char',), 1, 2), ('iterate_c', ('one_char',), max(0, n - 1)),
                          ('entire_input0', ('repeated1', ('one_char',))), ('keyword0', t[:15]), ('repeated', ('one_of_c', S('abc'))),
                          ('last_of', (('repeated', ('one_char',)), ('fail', 1))), ('token', ('one_char',)), ('foldl1', ('one_char_except_c', S('0')), 1, 2)])
            c = ParseCase(p, t, (1, 1, 0), rep)
            if c.applicable(cfg):
                pairs.append((cfg, c))
    ctx.evaluate(pairs, batch=160)


# ------------------------------------------------------------------------ C21
PUBLIC = '''accept accept_tag accept_when alphanum always always_c build_parser change_error_message config
debug_parsing_error define_error digit digit_val empty entire_input except fail fail_at_first_char_expected fail_tag
first_of foldl foldl1 foldl_reject_incomplete foldl_reject_incomplete1 foldl_reject_incomplete_start_with_parser
foldl_start_with_parser foldr foldr1 foldr_reject_incomplete foldr_reject_incomplete1 foldr_start_with_parser get_col
get_line get_message get_position get_prev_char get_remaining get_result grammar if_ int_ is_error iterate iterate_c
keyword last_of letter limit_one_char_except_size limit_one_of_size limit_sequence_size limit_string_size lit lit_c
look_ahead middle_of next_char next_line nth_of nth_of_c one_char one_char_except one_char_except_c one_of one_of_c
optional range range_c reject repeated repeated1 repeated_one_of repeated_one_of1 repeated_reject_incomplete
repeated_reject_incomplete1 return_ sequence sequence_apply source_position source_position_tag space spaces start
string string_tag string_value token transform transform_error transform_error_message unless_error version
error/digit_expected error/end_of_input_expected error/expected_to_fail error/index_out_of_range error/letter_expected
error/literal_expected error/none_of_the_expected_cases_found error/unexpected_character error/unexpected_end_of_input
error/unpaired error/whitespace_expected
util/digit_to_int util/digit_to_int_c util/in_range util/in_range_c util/int_to_digit util/int_to_digit_c util/is_digit
util/is_lcase_letter util/is_letter util/is_ucase_letter util/is_whitespace util/is_whitespace_c'''.split()
BASE = ['string', 'start', 'is_error', 'get_result', 'get_remaining', 'get_position', 'get_message', 'get_line',
        'get_col', 'get_prev_char']

# name -> template arguments (None: not a template), to compare with v1::name
ALIASES = {}
for _n in ('alphanum digit digit_val int_ letter one_char space spaces start accept_tag fail_tag source_position_tag '
           'string_tag error/digit_expected error/end_of_input_expected error/expected_to_fail error/letter_expected '
           'error/none_of_the_expected_cases_found error/unexpected_character error/unexpected_end_of_input '
           'error/whitespace_expected').split():
    ALIASES[_n] = ['']
_T = {'int': 'accept:3 accept_when:3 always:2 build_parser:1 change_error_message:2 debug_parsing_error:2 empty:1 '
      'entire_input:1 entire_input:2 except:3 fail:1 fail_at_first_char_expected:1 first_of:2 foldl:3 foldl1:3 '
      'foldl_reject_incomplete:3 foldl_reject_incomplete1:3 foldl_reject_incomplete_start_with_parser:3 '
      'foldl_start_with_parser:3 foldr:3 foldr1:3 foldr_reject_incomplete:3 foldr_reject_incomplete1:3 '
      'foldr_start_with_parser:3 get_col:1 get_line:1 get_message:1 get_position:1 get_prev_char:1 get_remaining:1 '
      'get_result:1 grammar:0 grammar:1 if_:3 is_error:0 is_error:1 iterate:2 keyword:1 keyword:2 last_of:3 lit:1 '
      'look_ahead:1 middle_of:3 next_char:2 next_line:2 nth_of:3 one_char_except:2 one_of:3 optional:1 optional:2 '
      'range:2 reject:2 repeated:1 repeated1:1 repeated_one_of:2 repeated_one_of1:2 repeated_reject_incomplete:1 '
      'repeated_reject_incomplete1:1 return_:1 sequence:3 source_position:3 token:1 transform:2 transform_error:2 '
      'transform_error_message:2 unless_error:2 util/digit_to_int:0 util/digit_to_int:1 util/in_range:0 '
      'util/in_range:3 util/int_to_digit:0 util/int_to_digit:1 util/is_digit:0 util/is_digit:1 '
      'util/is_lcase_letter:0 util/is_lcase_letter:1 util/is_letter:0 util/is_letter:1 util/is_ucase_letter:0 '
      'util/is_ucase_letter:1 util/is_whitespace:0 util/is_whitespace:1'}['int']
for _x in _T.split():
    _n, _k = _x.split(':')
    ALIASES.setdefault(_n, []).append('<%s>' % ', '.join(['int', 'char', 'long'][:int(_k)]))
ALIASES.update({'always_c': ["<'a', int>"], 'iterate_c': ['<int, 3>'], 'lit_c': ["<'x'>"], 'nth_of_c': ['<1, int, char>'],
                'one_char_except_c': ["<'a', 'b'>"], 'one_of_c': ["<'a', 'b'>"], 'range_c': ["<'a', 'b'>"],
                'string': ["<'a', 'b'>", '<>'], 'error/index_out_of_range': ['<1, 2, 3>'],
                'error/literal_expected': ["<'q'>"], 'error/unpaired': ['<1, 2, int>', '<1, 2>'],
                'util/digit_to_int_c': ["<'1'>"], 'util/in_range_c': ['<int, 1, 2>'],
                'util/int_to_digit_c': ['<1>'], 'util/is_whitespace_c': ["<' '>"]})


def alias_snippet(n):
    q = n.replace('/', '::')
    # force nothing but naming the entity
    code = ' '.join('mpv::put_int(mpv::same<boost::metaparse::%s%s, boost::metaparse::v1::%s%s >::value);' % (q, a, q, a)
                    for a in ALIASES[n])
    return ((n,), (), '', code, '1' * len(ALIASES[n]))


KIND_HEADER = {'keyword0': 'keyword', 'optional0': 'optional', 'entire_input0': 'entire_input'}
BOXED = {'lit', 'range', 'one_char_except', 'nth_of', 'iterate'}
MINI_BAD = {'recover', 'move_error', 'transform_error', 'transform_error_message', 'rec'}


def parse_snippet(c):
    """A snippet from a ParseCase; None when it needs the large harness."""
    ks = cpp.kinds(c.p)
    if ks & MINI_BAD or cpp.max_arity(c.p, {'sequence_apply'}) > 2:
        return None
    o = c.outcome()
    if o[0] == 'A':
        show = not any(x in o[1] for x in ('[', ANY, VOID))
        want = ['A|%s|1|%s' % (o[1] if show else '*', pos_text(o[3]))]
        rem = c.s[o[2]:]
    else:
        show, rem = False, ()
        want = sorted('R|%s|%s' % (escape(m), pos_text(o[2])) for m in o[1])
    hs = [KIND_HEADER.get(k, k) for k in ks] + BASE
    boost = ['boost/mpl/char.hpp', 'boost/mpl/int.hpp'] if ks & BOXED else []
    code = 'mpv::parse<%s, %s, boost::metaparse::start, %s, %s>();' % (
        cpp.Renderer().parser(c.p), cpp.text(c.s), cpp.text(rem), 'true' if show else 'false')
    return (tuple(sorted(set(hs))), tuple(boost), '', code, tuple(want))


class BareRenderer(cpp.Renderer):
    """The leaves are parsers the user has written."""
    def parser(self, p):
        if p[0] == 'one_char':
            return 'mpv::eat'
        if p[0] in ('return_', 'fail'):
            return 'mpv::%s<%d>' % ({'return_': 'yes', 'fail': 'no'}[p[0]], p[1])
        return super().parser(p)


BARE = [k for k in COMBINATORS if k not in MINI_BAD | {'token', 'entire_input', 'entire_input0'}]


def bare_snippet(r, cfg, k):
    """One combinator over user-written parsers only; the only headers are
    those of the combinator, of the outcomes, is_error and start."""
    g = gen.Gen(r, dict(cfg.limits, seq=min(4, cfg.limits['seq']), one_of=4, apply=2))
    for _ in range(60):
        leaf = lambda: r.choice([('one_char',), ('one_char',), ('return_', r.randint(0, 9)), ('fail', r.randint(0, 9))])
        args = []
        for sig in SPEC[k]:
            if sig == 'P':
                args.append(leaf())
            elif sig == 'Z':
                args.append(tuple(leaf() for _ in range(r.randint(1, 2 if k == 'sequence_apply' else 3))))
            elif sig == 'i':
                args.append(r.randint(0, 2))
            elif sig == 'q':
                args.append((r.choice(['true', 'false']),))
            else:
                args.append(r.randint(0, 9))
        c = ParseCase((k,) + tuple(args), (97,) * r.randint(0, 3))
        if c.applicable(cfg):
            break
    else:
        return None
    text = 'mpv::done'
    for _ in c.s:
        text = 'mpv::cell<%s%s>' % (text, ' ' if text.endswith('>') else '')
    hs = ['accept', 'reject', 'start', 'is_error', KIND_HEADER.get(k, k)]
    boost = ('boost/mpl/int.hpp',) if k in BOXED else ()
    code = 'mpv::put_int(%sis_error<%s::apply<%s, %sstart> >::type::value); /*MPV_MINI_USER*/' % (
        M, BareRenderer().parser(c.p), text, M)
    return tuple(sorted(set(hs))), boost, '', code, '01'[c.outcome()[0] == 'R']


M = 'boost::metaparse::'
CH = ('boost/mpl/char.hpp',)
CHI = ('boost/mpl/char.hpp', 'boost/mpl/int.hpp')


def fixed_snippets():
    """(headers, boost headers, declarations, code, expected)"""
    out = []
    add = lambda h, b, d, c, e: out.append((tuple(h.split()), tuple(b), d, c, e))
    for n, t in (('digit_expected', 'Digit expected'), ('end_of_input_expected', 'End of input expected'),
                 ('expected_to_fail', 'Parser expected to fail'), ('letter_expected', 'Letter expected'),
                 ('none_of_the_expected_cases_found', 'None of the expected cases found'),
                 ('unexpected_character', 'Unexpected character'),
                 ('unexpected_end_of_input', 'Unexpected end of input'), ('whitespace_expected', 'Whitespace expected')):
        add('error/' + n, (), '', 'mpv::put_escaped(%serror::%s::get_value());' % (M, n), escape(t))
    add('error/literal_expected', (), '', "mpv::put_escaped(%serror::literal_expected<'q'>::get_value());" % M, escape('Expected: q'))
    add('error/index_out_of_range', (), '', 'mpv::put_escaped(%serror::index_out_of_range<0,3,7>::get_value());' % M,
        escape('index (7) out of range [0-3]'))
    add('error/unpaired', (), '', 'mpv::put_escaped(%serror::unpaired<2,5,mpv::msg<4> >::get_value());' % M,
        escape('user message 4 (see 2:5)'))
    add('error/unpaired', (), '', 'mpv::put_escaped(%serror::unpaired<2,5>::type::apply<mpv::msg<4> >::type::get_value());' % M,
        escape('user message 4 (see 2:5)'))
    for n, yes, no in (('is_digit', '7', 'a'), ('is_lcase_letter', 'g', 'G'), ('is_ucase_letter', 'G', 'g'),
                       ('is_letter', 'm', '1'), ('is_whitespace', '\\n', 'x')):
        f = M + 'util::' + n
        add('util/' + n, CH, '', ' '.join(
            "mpv::put_int(%s<boost::mpl::char_<'%s'> >::type::value); mpv::put_int(%s<>::type::apply<boost::mpl::char_<'%s'> >::type::value);"
            % (f, c, f, c) for c in (yes, no)), '1100')
    add('util/is_whitespace_c', (), '', "mpv::put_int(%sutil::is_whitespace_c<' '>::type::value); mpv::put_int(%sutil::is_whitespace_c<'a'>::type::value);" % (M, M), '10')
    add('util/digit_to_int', CH, '', "mpv::put_int(%sutil::digit_to_int<boost::mpl::char_<'7'> >::type::value);"
        "mpv::put_int(%sutil::digit_to_int<>::type::apply<boost::mpl::char_<'3'> >::type::value);" % (M, M), '73')
    add('util/digit_to_int_c', (), '', "mpv::put_int(%sutil::digit_to_int_c<'7'>::type::value);" % M, '7')
    add('util/int_to_digit', ('boost/mpl/int.hpp',), '', "mpv::put_int(%sutil::int_to_digit<boost::mpl::int_<7> >::type::value);"
        "mpv::put_int(%sutil::int_to_digit<>::type::apply<boost::mpl::int_<3> >::type::value);" % (M, M), '5551')
    add('util/int_to_digit_c', (), '', 'mpv::put_int(%sutil::int_to_digit_c<7>::type::value);' % M, '55')
    add('util/in_range', ('boost/mpl/int.hpp',), '', 'mpv::put_int(%sutil::in_range<boost::mpl::int_<1>, boost::mpl::int_<3>, boost::mpl::int_<3> >::type::value);'
        'mpv::put_int(%sutil::in_range<boost::mpl::int_<1>, boost::mpl::int_<3> >::type::apply<boost::mpl::int_<4> >::type::value);' % (M, M), '10')
    add('util/in_range_c', ('boost/mpl/int.hpp',), '', 'mpv::put_int(%sutil::in_range_c<int, 1, 3>::type::apply<boost::mpl::int_<2> >::type::value);' % M, '1')
    acc = M + 'accept<mpv::val<3>, %sstring<%s>, %sstart>' % (M, "'a'", M)
    rej = M + 'reject<mpv::msg<5>, %sstart>' % M
    add('accept accept_tag string start get_result get_remaining get_position get_line is_error', (), '',
        'typedef %s a; mpv::show<%sget_result<a>::type>::run(); mpv::put_int(mpv::same<%sget_remaining<a>::type, %sstring<\'a\'> >::value);'
        'mpv::put_int(%sget_line<%sget_position<a> >::type::value); mpv::put_int(%sis_error<a>::type::value);'
        'mpv::put_int(mpv::same<a::tag, %saccept_tag>::value);' % (acc, M, M, M, M, M, M, M), 'val31101')
    add('reject fail_tag start get_message get_position get_col is_error', (), '',
        'typedef %s a; mpv::put_escaped(%sget_message<a>::type::get_value()); mpv::put_int(%sget_col<%sget_position<a> >::type::value);'
        'mpv::put_int(%sis_error<a>::type::value); mpv::put_int(mpv::same<a::tag, %sfail_tag>::value);' % (rej, M, M, M, M, M),
        escape('user message 5') + '111')
    add('unless_error reject start accept string is_error', (), '',
        'mpv::put_int(%sis_error<%sunless_error<%s, int> >::type::value); mpv::put_int(%sis_error<%sunless_error<%s, %s > >::type::value);'
        % (M, M, rej, M, M, acc, acc), '10')
    add('source_position source_position_tag next_char next_line get_line get_col get_prev_char', CHI, '',
        'typedef %ssource_position<boost::mpl::int_<3>, boost::mpl::int_<4>, boost::mpl::char_<\'a\'> > p; mpv::put_pos<p>();'
        'mpv::put_pos<%snext_char<p, boost::mpl::char_<\'b\'> > >(); mpv::put_pos<%snext_line<p, boost::mpl::char_<\'c\'> > >();'
        'mpv::put_int(mpv::same<p::tag, %ssource_position_tag>::value);' % (M, M, M, M), '3:4:973:5:984:1:991')
    for op, want in (('equal_to', '01'), ('not_equal_to', '10'), ('less', '10'), ('less_equal', '11'), ('greater', '00'), ('greater_equal', '01')):
        add('source_position', CHI + ('boost/mpl/%s.hpp' % op,), '',
            'typedef %ssource_position<boost::mpl::int_<3>, boost::mpl::int_<4>, boost::mpl::char_<\'a\'> > p;'
            'typedef %ssource_position<boost::mpl::int_<3>, boost::mpl::int_<5>, boost::mpl::char_<\'a\'> > q;'
            'mpv::put_int(boost::mpl::%s<p, q>::type::value); mpv::put_int(boost::mpl::%s<p, p>::type::value);' % (M, M, op, op), want)
        add('start source_position', (('boost/mpl/%s.hpp' % op),), '',
            'mpv::put_int(boost::mpl::%s<%sstart, %sstart>::type::value);' % (op, M, M), want[1])
    add('define_error fail start string get_message', (), 'BOOST_METAPARSE_DEFINE_ERROR(user_error, "Something: bad");',
        'mpv::put_escaped(user_error::get_value()); mpv::put_escaped(%sget_message<%sfail<user_error>::apply<%sstring<>, %sstart> >::type::get_value());'
        % (M, M, M, M), escape('Something: bad') * 2)
    add('build_parser int_ string', (), '', "mpv::put_int(%sbuild_parser<%sint_>::type::apply<%sstring<'4','2'> >::type::value);" % (M, M, M), '42')
    add('build_parser entire_input repeated1 lit_c string', (), '',
        "typedef %sbuild_parser<%sentire_input<%srepeated1<%slit_c<'x'> > > >::apply<%sstring<'x','x'> >::type r; (void)sizeof(r*); mpv::put_int(1);" % (M, M, M, M, M), '1')
    add('debug_parsing_error int_ string', (), 'int never(int x) { return x; }',
        "if (never(0)) { %sdebug_parsing_error<%sint_, %sstring<'1'> > d; (void)d; } mpv::put_int(1);" % (M, M, M), '1')
    add('debug_parsing_error build_parser entire_input digit string', (), 'int never2(int x) { return x; }',
        "if (never2(0)) { %sdebug_parsing_error<%sbuild_parser<%sentire_input<%sdigit> >, %sstring<'x'> > d; (void)d; } mpv::put_int(1);" % (M, M, M, M, M), '1')
    add('grammar build_parser string', ('boost/mpl/front.hpp',), '',
        "typedef %sgrammar<>::rule<%sstring<'S',':',':','=','\\'','a','\\'','+'> >::type g;"
        "mpv::put_int(boost::mpl::front<%sbuild_parser<g>::apply<%sstring<'a','a'> >::type>::type::value);" % (M, M, M, M), '97')
    add('grammar int_ token string start get_result get_line get_position', (), '',
        "typedef %sgrammar<%sstring<'x'> >::import<%sstring<'n'>, %stoken<%sint_> >::type::rule<%sstring<'x',':',':','=','n'>, mpv::fun1<3> >::type g;"
        "mpv::show<%sget_result<g::apply<%sstring<'1','2',' '>, %sstart> >::type>::run();" % ((M,) * 9), '(3 12)')
    add('transform_error digit string start get_message reject get_position', (),
        'struct redo { typedef redo type; template <class E> struct apply : %sreject<mpv::msg<8>, typename %sget_position<E>::type> {}; };' % (M, M),
        'mpv::put_escaped(%sget_message<%stransform_error<%sdigit, redo>::apply<%sstring<>, %sstart> >::type::get_value());' % ((M,) * 5),
        escape('user message 8'))
    add('transform_error_message digit string start get_message', (),
        'struct reword { typedef reword type; template <class E> struct apply { typedef mpv::msg<9> type; }; };',
        'mpv::put_escaped(%sget_message<%stransform_error_message<%sdigit, reword>::apply<%sstring<>, %sstart> >::type::get_value());' % ((M,) * 5),
        escape('user message 9'))
    for n, d in (('limit_one_char_except_size', 10), ('limit_one_of_size', 20), ('limit_sequence_size', 5), ('limit_string_size', 32)):
        add(n, (), '', 'mpv::put_int(BOOST_METAPARSE_%s);' % n.upper(), '%%%s' % n)
    add('version', (), '', 'mpv::put_int(BOOST_METAPARSE_VERSION / 10000000 * 10000000 + (BOOST_METAPARSE_VERSION % 10000000) / 100000 * 100000'
        ' + BOOST_METAPARSE_VERSION % 100000 == BOOST_METAPARSE_VERSION && BOOST_METAPARSE_VERSION / 10000000 == 1);', '1')
    # string interoperability with the MPL algorithms the user includes
    st = M + "string<'h','e','y'>"
    for h, e, want in (('size', 'boost::mpl::size<%s >::type::value', 3), ('front', 'boost::mpl::front<%s >::type::value', 104),
                       ('back', 'boost::mpl::back<%s >::type::value', 121), ('empty', 'boost::mpl::empty<%s >::type::value', 0),
                       ('at', 'boost::mpl::at_c<%s, 1>::type::value', 101),
                       ('begin_end', 'boost::mpl::begin<%s >::type::type::pos', None)):
        if want is not None:
            add('string', ('boost/mpl/%s.hpp' % h,), '', 'mpv::put_int(%s);' % (e % st), str(want))
    for h, e, cs in (('pop_front', 'boost::mpl::pop_front<%s >' % st, 'ey'), ('pop_back', 'boost::mpl::pop_back<%s >' % st, 'he'),
                     ('push_front', "boost::mpl::push_front<%s, boost::mpl::char_<'x'> >" % st, 'xhey'),
                     ('push_back', "boost::mpl::push_back<%s, boost::mpl::char_<'x'> >" % st, 'heyx'),
                     ('clear', 'boost::mpl::clear<%s >' % st, '')):
        add('string', ('boost/mpl/%s.hpp' % h,) + CH, '', 'mpv::put_int(mpv::same<%s::type, %s >::value);' % (e, cpp.text(S(cs))), '1')
    add('string', ('boost/mpl/string.hpp',), '', 'std::printf("%%s", boost::mpl::c_str<%s >::value);' % st, 'hey')
    add('string', ('boost/mpl/equal_to.hpp',), '', 'mpv::put_int(boost::mpl::equal_to<%s, %s >::type::value);' % (st, st), '1')
    add('string string_tag', (), '', 'mpv::put_int(mpv::same<%s::tag, %sstring_tag>::value);' % (st, M), '1')
    return out


MODERN = [
    (('string',), (), '', 'mpv::put_int(mpv::same<BOOST_METAPARSE_STRING("hello"), boost::metaparse::string<\'h\',\'e\',\'l\',\'l\',\'o\'> >::value);', '1'),
    (('string_value', 'string'), (), '', 'mpv::put_int(mpv::same<decltype(BOOST_METAPARSE_STRING_VALUE("hi")), boost::metaparse::string<\'h\',\'i\'> >::value);', '1'),
    (('int_', 'string', 'start', 'get_result'), (), '', 'mpv::put_int(boost::metaparse::get_result<boost::metaparse::int_::apply<BOOST_METAPARSE_STRING("113"), boost::metaparse::start> >::type::value);', '113'),
]


class HeadersCase(Case):
    """order: the include lines; snippets; units: 1 or 2 translation units"""
    def __init__(self, order, snippets, units=1):
        self.order, self.snippets, self.units = tuple(order), tuple(snippets), units

    @staticmethod
    def needed(snippets):
        hs = []
        for h, b, _, _, _ in snippets:
            for x in h:
                hs.append('boost/metaparse/%s.hpp' % x)
            hs += b
        return sorted(set(hs))

    def includes(self):
        return ''.join('#include <%s>\n' % h for h in self.order)

    def full_source(self, cfg):
        out = [self.includes()]
        code = ''.join(sn[3] for sn in self.snippets)
        if 'mpv::parse<' in code:
            out.append('#define MPV_MINI_PARSE\n')
        if 'mpv::parse<' in code or 'put_pos' in code:
            out.append('#define MPV_MINI_POS\n')
        if 'MPV_MINI_USER' in code:
            out.append('#define MPV_MINI_USER\n')
        out.append('#include "mpv_mini.hpp"\n')
        for k, (h, b, d, c, e) in enumerate(self.snippets):
            if d:
                out.append('namespace n%d { %s }\n' % (k, d))
            out.append('%sstatic void f%d() { %s%s }\n' % ('', k, 'using namespace n%d; ' % k if d else '', c))
        out.append('int main() {\n')
        for k in range(len(self.snippets)):
            out.append('  std::printf("\\n@%d "); f%d();\n' % (k, k))
        out.append('  std::printf("\\n@end ");\n  return 0;\n}\n')
        return ''.join(out)

    def evaluate_alone(self, ctx, cfg):
        d = ctx.newdir()
        try:
            src = os.path.join(d, 'headers.cpp')
            exe = os.path.join(d, 'headers')
            open(src, 'w').write(self.full_source(cfg))
            extra = []
            if self.units == 2:
                open(os.path.join(d, 'other.cpp'), 'w').write(
                    ''.join('#include <%s>\n' % h for h in reversed(self.order)) + 'int other() { return 1; }\n')
                extra = [os.path.join(d, 'other.cpp')]
            rc, err = ctx.compile(cfg, src, exe, pch=None, flags=extra)
            if rc is None or rc < 0 or 'Killed' in err[-400:]:
                with ctx.lock:
                    ctx.infra.append('compiler: rc=%s' % rc)
                return None
            if rc:
                return 'does not compile: ' + first_error(err)
            rc, out, _ = run([exe], 60)
            got = {}
            for part in out.decode('latin-1').split('\n@')[1:]:
                i, _, payload = part.partition(' ')
                got[i] = payload
            if rc != 0 or 'end' not in got:
                return 'program failed: rc=%s' % rc
            for k, sn in enumerate(self.snippets):
                want = sn[4] if isinstance(sn[4], tuple) else (sn[4],)
                want = [str(self.limit(cfg, w[1:])) if w.startswith('%') else w for w in want]
                if got.get(str(k)) not in want:
                    return 'snippet %d: expected %s, got %s' % (k, ' or '.join(want), got.get(str(k)))
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def limit(cfg, name):
        macro = 'BOOST_METAPARSE_%s=' % name.upper()
        for x in cfg.defs:
            if x.startswith(macro):
                return int(x[len(macro):])
        return {'limit_one_char_except_size': 10, 'limit_one_of_size': 20, 'limit_sequence_size': 5, 'limit_string_size': 32}[name]

    def shrinks(self):
        if self.units == 2:
            yield HeadersCase(self.order, self.snippets, 1)
        for i in range(len(self.snippets) if len(self.snippets) > 1 else 0):
            sn = self.snippets[:i] + self.snippets[i + 1:]
            keep = set(self.needed(sn))
            seen, o = set(), []
            for h in self.order:
                if h in keep and h not in seen:
                    seen.add(h)
                    o.append(h)
            yield HeadersCase(o, sn, self.units)
        need = set(self.needed(self.snippets))
        for i, h in enumerate(self.order):
            if h not in need or h in self.order[:i]:
                yield HeadersCase(self.order[:i] + self.order[i + 1:], self.snippets, self.units)

    def size(self):
        return 3 * len(self.order) + 10 * len(self.snippets) + self.units

    def nontrivial(self):
        return bool(self.snippets) or len(set(self.order)) == 1

    def labels(self):
        yield 'units:%d' % self.units
        yield 'headers:%d' % min(40, len(set(self.order)) // 5 * 5)
        if len(set(self.order)) != len(self.order):
            yield 'repeated-includes'

    def to_json(self):
        return {'order': self.order, 'snippets': self.snippets, 'units': self.units}

    @classmethod
    def from_json(cls, d):
        f = cpp.freeze
        return cls(f(d['order']), f(d['snippets']), d['units'])

    def show(self):
        return 'includes %s; code %s' % (' '.join(self.order), ' '.join(s[3] for s in self.snippets))


class BareHeader(HeadersCase):
    """Headers with nothing else: must compile on their own and twice."""
    def full_source(self, cfg):
        return self.includes() + self.includes() + 'int main() { return 0; }\n'

    def evaluate_alone(self, ctx, cfg):
        d = ctx.newdir()
        try:
            src = os.path.join(d, 'bare.cpp')
            open(src, 'w').write(self.full_source(cfg))
            rc, err = ctx.compile(cfg, src, None, pch=None)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc is None or rc < 0:
            with ctx.lock:
                ctx.infra.append('compiler: rc=%s' % rc)
            return None
        return None if rc == 0 else 'does not compile: ' + first_error(err)

    def shrinks(self):
        for i in range(len(self.order)):
            if len(self.order) > 1:
                yield BareHeader(self.order[:i] + self.order[i + 1:], (), 1)


def C21(ctx):
    ctx.rule = ('random sets of code snippets (generated parsers with their model outcome, error texts, '
                'utilities, outcomes, positions, strings, grammars, comparisons with the v1 names) compiled '
                'with exactly the headers documented for the names they use, in random order with '
                'repetitions, in one or two translation units, without any other Boost.Metaparse header; '
                'each combinator over user-written parsers with no other header than those of the '
                'outcomes; every public header alone and twice. Non-trivial: at least one snippet, or a single header')
    jobs = []
    names = ctx.n(['g98', 'c98', 'g11', 'c14', 'g17', 'c20'], FULL)
    cl = [CFGS[n] for n in names]
    r0 = rng_for(ctx.seed, 'C21', ctx.tier)
    for i, h in enumerate(PUBLIC):
        for cfg in (r0.sample(cl, 1) if ctx.quick() else cl):
            jobs.append((cfg, BareHeader(['boost/metaparse/%s.hpp' % h], (), 1)))
    fixed = fixed_snippets()
    for cfg in cl:
        r = rng_for(ctx.seed, 'C21', ctx.tier, cfg.name)
        ps = []
        for _, c in random_cases(ctx, cfg, 'p', ctx.n(120, 600), COMBINATORS + LEAVES * 2 + ['entire_input0'], (), (1, 2), 10):
            if cpp.size(c.p) <= 9:
                c = c.variant(pos=(1, 1, 0))
                sn = parse_snippet(c) if c.applicable(cfg) else None
                if sn:
                    ps.append(sn)
        for k in BARE:
            for _ in range(ctx.n(1, 6)):
                sn = bare_snippet(r, cfg, k)
                if sn:
                    order = HeadersCase.needed([sn])
                    r.shuffle(order)
                    jobs.append((cfg, HeadersCase(order, [sn], 1)))
        al = [alias_snippet(n) for n in ALIASES]
        fx = fixed + ([] if cfg.old else MODERN)
        # every fixed snippet and alias at least once, split over the units
        pool = fx + al
        r.shuffle(pool)
        pool = pool[:ctx.n(75, 10**6)]
        r.shuffle(ps)
        k = 0
        while k < len(pool) or ps:
            n = r.choice([1, 1, 2, 3, 6, 12])
            sn = pool[k:k + n]
            k += n
            m = r.choice([0, 1, 1, 2, 4])
            sn += ps[:m]
            ps = ps[m:]
            if not sn:
                continue
            r.shuffle(sn)
            order = HeadersCase.needed(sn)
            order += [r.choice(order) for _ in range(r.choice([0, 0, 1, 4]))]
            if r.random() < 0.1:
                order.append('boost/metaparse.hpp')
            r.shuffle(order)
            jobs.append((cfg, HeadersCase(order, sn, 2 if r.random() < 0.12 else 1)))
    r0.shuffle(jobs)
    ctx.map(lambda j: alone(ctx, *j), jobs)
