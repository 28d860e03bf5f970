"""Registry: property id -> function running its check."""
from . import checks_parse as P, checks_string as ST, checks_basic as B, checks_build as D, checks_grammar as G, checks_env as V, checks_ext as X

CHECKS = {k: getattr(P, k) for k in ('C06', 'C07', 'C08', 'C09', 'C10', 'C17', 'C20')}
CHECKS.update({k: getattr(ST, k) for k in ('C01', 'C02')})
CHECKS.update({k: getattr(B, k) for k in ('C03', 'C04', 'C05', 'C11', 'C12', 'C18')})
CHECKS.update({k: getattr(D, k) for k in ('C13', 'C14')})
CHECKS['C15'] = G.C15
CHECKS.update({k: getattr(V, k) for k in ('C16', 'C19', 'C21')})
CHECKS.update({k: getattr(X, k) for k in ('C22', 'C23')})

_P = 'property-based testing: '
_MODEL = ('generated parsers, texts and start positions, compiled and run, against an '
          'independent reference interpreter')
TECHNIQUE = {k: _P + _MODEL for k in CHECKS}
TECHNIQUE.update({
    'C01': _P + 'generated literals and limits against the character list, must-not-compile beyond the limit',
    'C02': _P + 'stateful histories of string operations and iterator walks against a list model',
    'C03': _P + 'every character value for every one-character parser and predicate, generated sets and ranges',
    'C04': _P + 'generated texts, consumers and start positions against a position automaton',
    'C05': _P + 'generated pairs of positions against tuple order',
    'C12': _P + 'generated digit runs and conversions against decimal arithmetic',
    'C13': _P + _MODEL + '; rejected inputs must fail to compile with the right diagnostic',
    'C14': _P + _MODEL + ', comparing the complete output and exit status',
    'C15': _P + 'generated and mutated grammar texts against the interpreter on their syntax tree, '
                'and an independent recogniser for malformed ones',
    'C16': _P + 'differential: the same generated cases under all standards, compilers and generated limits',
    'C17': _P + _MODEL + ', plus metamorphic relations (moved start, replaced unexamined text)',
    'C18': _P + 'generated outcomes with lazily wrapped parts, round trip through the accessors',
    'C19': _P + _MODEL + ', differential over generated input representations',
    'C22': _P + 'generated maximum lengths and steps for the generator tool, then generated literals with the '
                'headers it wrote, must-not-compile beyond the limit',
    'C23': _P + _MODEL + ', with generated user written parsers, functions, predicates and boxed values',
    'C21': _P + 'generated header sets, orders and snippets, compiled and compared with the model outcome',
})
NOTE = ('Holds on every generated case of the run (counts and samples in the evidence '
        'file); no claim beyond them. Trusts the compilers, Boost.MPL and the reference '
        'model written from the documentation.')
