#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
V = 'include/boost/metaparse/v1/'
props = []
def P(id, title, statement, over, text, why, files, mech, observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if observe: d['anchors']['observe_at'] = [observe]
    props.append(d)

P('C01', 'String literal macros produce exactly the literal\'s characters',
  'For every string literal whose length does not exceed the configured string size limit (any limit up to 2048, including after the limit is redefined within a translation unit), the string macro yields the compile-time string with exactly the literal\'s characters in order: none lost, added, reordered or altered, embedded NULs and non-ASCII characters included. A longer literal does not compile, and the string-value macro yields an object of that same string type.',
  ['inputs', 'configurations'], 'all literal lengths 0..2048, all character contents, all values of the size limit, several limits in one translation unit, all C++11-and-later standards and compilers',
  'The tests use a handful of short literals with the default limit; a slip at one of 2048 index positions, one chunk size or one limit value is invisible to them.',
  [V+'cpp11/impl/string.hpp', V+'cpp11/impl/string_at.hpp', V+'cpp11/impl/concat.hpp', V+'string_value.hpp', 'include/boost/metaparse/string.hpp', 'include/boost/metaparse/limit_string_size.hpp'],
  [('make_string / take', V+'cpp11/impl/string.hpp'), ('STRING_AT', V+'cpp11/impl/string_at.hpp'), ('concat', V+'cpp11/impl/concat.hpp')],
  'c_str, size and type identity of the produced string; success or failure of compilation')

P('C02', 'Compile-time strings behave as immutable character sequences',
  'Under any history of front/back insertions and removals, clearing, element and iterator access, length, emptiness, equality and C-string conversion, a compile-time string behaves exactly like a sequence of characters. This holds for every character value and for every length up to the size limit in C++98 and any length from C++11 on; two strings are equal exactly when they hold the same characters.',
  ['histories', 'inputs', 'configurations'], 'all operation sequences over strings, all contents and lengths up to the limit, C++98 and C++11+ representations',
  'Tests call each operation once or twice on short strings such as "hello"; interactions, boundary lengths (full strings) and unusual characters need generated histories.',
  [V+'cpp98/string.hpp', V+'cpp11/string.hpp', V+'cpp98/impl/size.hpp', V+'cpp98/impl/update_c.hpp', V+'impl/string_iterator.hpp', V+'cpp11/impl/pop_back.hpp', V+'cpp11/impl/at_c.hpp', V+'impl/at_c.hpp'],
  [('MPL overloads for string_tag', V+'cpp98/string.hpp, '+V+'cpp11/string.hpp'), ('string_iterator', V+'impl/string_iterator.hpp')],
  'MPL operations applied to string types')

P('C03', 'Single-character parsers and predicates classify every character',
  'For every character value (and the empty input) each single-character parser - literal, any character, range, character set, everything-but set, digit, letter, alphanumeric, whitespace - accepts exactly the characters it documents, returns that character (digit values: its numeric value), consumes exactly one character, and otherwise rejects with its documented error at the position where it was applied. The character predicates and range test, in direct and curried form, give the same classification.',
  ['inputs', 'configurations'], 'all 256 character values and empty input, all argument characters and set sizes, every language standard\'s implementation',
  'Tests probe a few characters per parser; a wrong boundary, a set element that is skipped or signed-char trouble only shows for particular characters or set positions.',
  [V+'one_char.hpp', V+'lit_c.hpp', V+'lit.hpp', V+'range.hpp', V+'range_c.hpp', V+'digit.hpp', V+'letter.hpp', V+'alphanum.hpp', V+'space.hpp', V+'one_of_c.hpp', V+'one_char_except.hpp', V+'cpp98/one_char_except_c.hpp', V+'cpp11/one_char_except_c.hpp', V+'cpp14/impl/any_of_c.hpp', V+'cpp98/one_of_c.hpp', V+'util/in_range_c.hpp', V+'util/is_whitespace_c.hpp', V+'util/is_letter.hpp', V+'impl/is_char_c.hpp'],
  [('accept_when', V+'accept_when.hpp'), ('any_of_c / is_none', V+'cpp14/impl/any_of_c.hpp, '+V+'cpp98/impl/is_none.hpp, '+V+'cpp11/impl/is_none_c.hpp')],
  'parsing results and predicate values')

P('C04', 'Source positions follow the consumed text',
  'After consuming any prefix of any input from any starting position - by whatever parsers the consumption happens - the reported position is the starting position advanced over exactly that prefix: a carriage return, or a line feed not directly preceded by a carriage return, starts the next line at column 1; any other character (including the line feed of a CR LF pair) moves one column right; and the last consumed character is remembered. The line/column advancing operations and the start position obey the same rules.',
  ['inputs', 'histories'], 'all texts over all characters (in particular all mixtures of CR and LF), all starting positions, all ways of splitting the consumption between parsers',
  'Tests check the line number after one newline in three fixed texts and never the column or the remembered character across parser boundaries.',
  [V+'one_char.hpp', V+'next_char.hpp', V+'next_line.hpp', V+'fwd/next_char.hpp', V+'source_position.hpp', V+'start.hpp', V+'get_line.hpp', V+'get_col.hpp', V+'get_prev_char.hpp'],
  [('next_pos', V+'one_char.hpp'), ('next_char / next_line', V+'next_char.hpp, '+V+'next_line.hpp')],
  'get_line, get_col, get_prev_char of get_position')

P('C05', 'Source positions are totally and consistently ordered',
  'The six comparisons on source positions agree with the lexicographic order of line, then column, then previous character, for every pair of positions: equality and inequality are complementary, exactly one of less/equal/greater holds, the non-strict forms are the negations of the opposite strict forms, and the order is transitive. Consuming input always yields a strictly greater position.',
  ['inputs'], 'all pairs and triples of positions (any line, column, previous character, also negative character values)',
  'Tests compare a few pairs; a comparison wrong only when an earlier component already decides, or only for one operator, is not sampled.',
  [V+'source_position.hpp', V+'cpp11/impl/eval_later_result.hpp', V+'cpp98/impl/later_result.hpp' ],
  [('less_impl .. less_equal_impl', V+'source_position.hpp')],
  'boost::mpl::equal_to, not_equal_to, less, greater, less_equal, greater_equal')

P('C06', 'Sequencing parsers run in order and select the documented results',
  'Sequencing combinators (full sequence, n-th, first, last, middle, template-applying sequence, fixed-count iteration, keyword, token, spaces) apply their parsers left to right, each on the text and position the previous one left, and accept exactly when all accept; the result is the documented selection of the results (all of them in order, the n-th, the first, the last, the enclosed one, the template instance), and remaining text and position are those after the last parser. If one parser rejects, no later parser influences the outcome and that parser\'s error is returned unchanged (only the closing parser\'s message of the middle combinator is augmented with the opening position); an n-th index outside the parsers is rejected as index out of range.',
  ['inputs', 'programs', 'configurations'], 'all parser tuples of every supported arity, all selected indices, all iteration counts, all inputs, every standard\'s implementation',
  'Tests use arities up to three with one or two inputs per combinator; errors at a specific position of a specific arity, or a wrong index at larger arities, stay unseen.',
  [V+'cpp11/sequence.hpp', V+'cpp98/sequence.hpp', V+'impl/apply_parser.hpp', V+'cpp11/nth_of_c.hpp', V+'cpp11/impl/nth_of_c.hpp', V+'cpp98/impl/nth_of_c_impl.hpp', V+'cpp98/impl/skip_seq.hpp', V+'first_of.hpp', V+'last_of.hpp', V+'middle_of.hpp', V+'sequence_apply.hpp', V+'iterate_c.hpp', V+'impl/iterate_impl.hpp', V+'keyword.hpp', V+'token.hpp', V+'spaces.hpp'],
  [('sequence / nth_of_c', V+'cpp11/sequence.hpp, '+V+'cpp98/impl/nth_of_c_impl.hpp'), ('iterate_impl', V+'impl/iterate_impl.hpp'), ('middle_of + unpaired', V+'middle_of.hpp')],
  'parsing results')

P('C07', 'Choice is ordered and never consumes on a rejected path',
  'Ordered choice returns exactly the outcome of the first alternative that accepts, applied to the original text and position, whether or not later alternatives would accept too and however far earlier ones got before rejecting, and rejects exactly when all alternatives reject; the rejection then carries the furthest position reached by any alternative together with the message of an alternative that failed there (or the generic none-matched message when none advanced). Optional, conditional, negative and look-ahead combinators take the branch their operand\'s outcome dictates, and whenever they succeed without using the operand\'s outcome (default value, chosen branch, negation, look-ahead) they leave text and position untouched.',
  ['inputs', 'programs', 'configurations'], 'all alternative lists of every supported arity (0 and 1 included), all inputs, every standard\'s implementation',
  'Tests use two or three literal alternatives; order, backtracking after partial consumption and furthest-failure selection depend on combinations they never form.',
  [V+'cpp11/one_of.hpp', V+'cpp98/one_of.hpp', V+'cpp98/impl/one_of.hpp', V+'cpp98/impl/one_of_fwd_op.hpp', V+'cpp98/impl/later_result.hpp', V+'cpp11/impl/eval_later_result.hpp', V+'optional.hpp', V+'if_.hpp', V+'except.hpp', V+'look_ahead.hpp', V+'empty.hpp'],
  [('one_of', V+'cpp11/one_of.hpp, '+V+'cpp98/impl/one_of_fwd_op.hpp'), ('later_result', V+'cpp98/impl/later_result.hpp, '+V+'cpp11/impl/eval_later_result.hpp')],
  'parsing results')

P('C08', 'Repetition and left folds process all matches left to right',
  'Repetition and left-fold combinators apply their parser again and again from where it stopped until it first rejects, combine the results strictly left to right starting from the given state (or from the initial parser\'s result), and stop with the text and position after the last match. The plain variants accept with zero matches (state/empty result, nothing consumed), the at-least-one variants reject with the parser\'s own error when there is no match, and the variants started by a parser reject with that parser\'s error when it rejects.',
  ['inputs', 'programs', 'configurations'], 'all element parsers, states, combining functions, numbers of matches and inputs',
  'Tests fold over zero to three characters with a commutative or single-use operation; order, off-by-one and position effects need generated matches and a structure-revealing operation.',
  [V+'foldl.hpp', V+'foldl1.hpp', V+'foldl_start_with_parser.hpp', V+'repeated.hpp', V+'repeated1.hpp', V+'cpp11/repeated_one_of.hpp', V+'cpp98/repeated_one_of.hpp', V+'impl/back_inserter.hpp'],
  [('foldl::next_iteration', V+'foldl.hpp'), ('back_inserter', V+'impl/back_inserter.hpp')],
  'parsing results')

P('C09', 'Right folds process all matches right to left',
  'Right-fold combinators apply their parser from left to right until it first rejects, then combine the results strictly right to left, starting from the given state or from the result of the final-state parser, which is applied to the text following the last match; text and position are those after everything consumed. The plain variants accept with zero matches, the at-least-one variant rejects with the parser\'s own error when there is no match, and a rejecting final-state parser makes the whole fold reject with that error.',
  ['inputs', 'programs', 'configurations'], 'all element parsers, states, state parsers, combining functions, numbers of matches and inputs',
  'Tests use up to three characters and never combine partial consumption, position tracking and the state parser.',
  [V+'foldr.hpp', V+'foldr1.hpp', V+'foldr_start_with_parser.hpp', V+'foldr_reject_incomplete.hpp', V+'impl/front_inserter.hpp'],
  [('foldr_start_with_parser::apply', V+'foldr_start_with_parser.hpp')],
  'parsing results')

P('C10', 'Reject-incomplete variants reject exactly on partially matched tails',
  'Every reject-incomplete repetition or fold agrees with its plain counterpart when the final, unsuccessful application of the element parser failed without advancing, and otherwise rejects with exactly that final application\'s error message and position. The fail-at-first-character-expected combinator accepts, consuming nothing, exactly when its parser fails at the position where it was applied, and otherwise rejects (with the parser\'s error, or with an expected-to-fail error when the parser accepts).',
  ['inputs', 'programs', 'configurations'], 'all multi-character element parsers, states, inputs with complete and incomplete tails at every offset and line break',
  'Tests check one incomplete input per combinator; whether the position comparison is right after several matches or across newlines is not sampled.',
  [V+'foldl_reject_incomplete.hpp', V+'foldl_reject_incomplete1.hpp', V+'foldl_reject_incomplete_start_with_parser.hpp', V+'foldr_reject_incomplete.hpp', V+'foldr_reject_incomplete1.hpp', V+'repeated_reject_incomplete.hpp', V+'repeated_reject_incomplete1.hpp', V+'fail_at_first_char_expected.hpp'],
  [('foldl_reject_incomplete::apply', V+'foldl_reject_incomplete.hpp'), ('fail_at_first_char_expected', V+'fail_at_first_char_expected.hpp')],
  'parsing results')

P('C11', 'Errors carry the right message at the right place',
  'Every rejection reports the message and position of the failure that caused it, through any nesting of combinators; the error-transforming combinators change a rejection exactly as documented (replace the message keeping the place where the changed parser was applied, map the message keeping the position, map the whole error) and leave acceptances untouched. The human-readable text of every built-in and user-defined error message states the documented text with its parameters (expected literal, index and range, position of the unpaired opening).',
  ['inputs', 'programs'], 'all nestings of combinators over error-producing parsers, all error parameters, all inputs and positions',
  'Tests mostly assert that an error occurred; which message and which line and column survive nested combinators is checked for few shapes, and message text hardly at all.',
  [V+'change_error_message.hpp', V+'transform_error.hpp', V+'transform_error_message.hpp', V+'accept_when.hpp', V+'fail.hpp', V+'reject.hpp', V+'error/unpaired.hpp', V+'error/literal_expected.hpp', V+'error/index_out_of_range.hpp', V+'define_error.hpp', V+'middle_of.hpp'],
  [('transform_error', V+'transform_error.hpp'), ('unpaired', V+'error/unpaired.hpp')],
  'get_message / get_position / get_value')

P('C12', 'Numbers are parsed to their exact value',
  'The integer parser accepts exactly the inputs starting with a decimal digit, consumes the whole maximal digit run (leading zeros included) and yields its decimal value whenever that value is below the largest int (which boost::mpl::int_ cannot hold); the digit-value parser yields the value of one digit. The digit/character conversions are mutually inverse on 0..9 in every direct and curried form and converting a non-digit yields the documented error instead of a number.',
  ['inputs', 'configurations'], 'all digit strings with values up to INT_MAX, any following text, all characters for the conversions',
  'Tests parse a couple of one- to three-digit numbers.',
  [V+'int_.hpp', V+'digit_val.hpp', V+'impl/next_digit.hpp', V+'util/digit_to_int.hpp', V+'util/digit_to_int_c.hpp', V+'util/int_to_digit.hpp', V+'util/int_to_digit_c.hpp'],
  [('next_digit', V+'impl/next_digit.hpp'), ('digit_to_int_c', V+'util/digit_to_int_c.hpp')],
  'parsing results and conversion values')

P('C13', 'Built parsers compile exactly for accepted inputs, whole-input parsing',
  'The entire-input combinator accepts exactly when its parser accepts and nothing remains, and otherwise rejects with the parser\'s error or with the end-of-input message at the first unconsumed character. Instantiating a built parser compiles, with the parser\'s result, exactly for the inputs the parser accepts, and for every other input fails to compile with a diagnostic that names the line, the column and the error of the rejection.',
  ['inputs', 'programs', 'configurations'], 'all parsers and inputs, accepted and rejected, with errors on any line and column, both compilers',
  'The test suite has no test of a failing built parser at all: a failing compilation cannot be a passing test.',
  [V+'build_parser.hpp', V+'entire_input.hpp', V+'empty.hpp'],
  [('parsing_failed', V+'build_parser.hpp'), ('entire_input', V+'entire_input.hpp')],
  'compiler exit status and diagnostics; built parser results')

P('C14', 'Debugging a parse prints exactly what the parse did',
  'For every parser and every input without NUL characters, constructing the parsing-error debugger object prints the full input text followed by either the line, column and message of the rejection or the exact remaining text of the acceptance, and then ends the program with exit status zero. Debugging a built parser reports the same as debugging the parser it was built from.',
  ['inputs', 'programs'], 'all parsers and inputs (C strings), accepted and rejected, built and plain parsers',
  'The suite has no test that runs the debugger and reads its output.',
  [V+'debug_parsing_error.hpp', V+'build_parser.hpp'],
  [('debug_parsing_error', V+'debug_parsing_error.hpp')],
  'standard output and exit status of a generated program')

P('C15', 'A grammar means what its text says',
  'For every non-recursive rule set written in the grammar language, the resulting parser behaves as the parser described by the text: quoted characters (with the documented escapes) are terminals, names refer to rules or imported parsers in any definition order, postfix * and + are zero-or-more and one-or-more, juxtaposition is sequencing, | is ordered choice binding weaker than juxtaposition, brackets group, and whitespace between tokens is irrelevant. Semantic actions are applied to the result of exactly their own rule, parsing starts from the given start symbol (S by default), and malformed rule text does not compile.',
  ['programs', 'inputs', 'configurations'], 'all non-recursive grammars and layouts of their text, all inputs, malformed rule texts',
  'Tests cover about a dozen fixed rules; precedence, nesting, escapes, naming and layout interact in combinations that are never sampled.',
  [V+'grammar.hpp', V+'foldl_start_with_parser.hpp', V+'middle_of.hpp', V+'impl/front_inserter.hpp'],
  [('expression grammar / build_*', V+'grammar.hpp'), ('get_parser', V+'grammar.hpp')],
  'parsing results of grammars; compiler exit status for malformed ones')

P('C16', 'Every language standard and configuration gives the same answers',
  'The same parser applied to the same text gives the same outcome - acceptance, result, remaining text, position, and for rejections the position - under every language standard from C++98 on, with the C++98, C++11 and C++14 implementations, with different compilers and with every admissible value of the size-limit macros. Only the choice among several messages for failures at the same place in an ordered choice may differ.',
  ['programs', 'inputs', 'configurations'], 'all parsers built from the public combinators, all inputs, all standards, implementation selections, compilers and limit values',
  'The suite runs per standard with one compiler and default limits and never compares outcomes between configurations.',
  ['include/boost/metaparse/config.hpp', V+'cpp98', V+'cpp11', V+'cpp14', V+'one_of.hpp', V+'one_of_c.hpp', V+'sequence.hpp', V+'string.hpp'],
  [('BOOST_METAPARSE_STD selection', 'include/boost/metaparse/config.hpp'), ('LIMIT_* macros', 'include/boost/metaparse/limit_*.hpp')],
  'parsing results in each configuration')

P('C17', 'Every parser honours the parsing contract',
  'For every parser that can be composed from the public combinators and every input and starting position, an acceptance leaves a suffix of the input and reports the position of that suffix, a rejection reports a position at or after the starting position and reachable within the input, and the outcome is the one the combinators\' documented meanings compose to. Moving the starting position only shifts reported positions, and text beyond what the parser examined has no influence.',
  ['programs', 'inputs'], 'all compositions of the public parsers and combinators, all inputs and start positions',
  'Tests exercise combinators one at a time over literals; the guarantee is about arbitrary compositions.',
  [V+'accept.hpp', V+'reject.hpp', V+'one_char.hpp', V+'accept_when.hpp', V+'transform.hpp', V+'foldl.hpp', V+'foldr_start_with_parser.hpp', V+'cpp11/one_of.hpp', V+'cpp11/sequence.hpp'],
  [('all combinators', V)],
  'parsing results')

P('C18', 'Parsing outcomes are faithful values',
  'An acceptance built from any result, remaining text and position, and a rejection built from any message and position, gives back these components, with equal values, through the accessors, is recognised as success or error accordingly, and keeps its tag, also when its parts or the outcome itself are given as yet unevaluated (nullary metafunction) arguments. The error short-circuit yields the error for an error and otherwise the given alternative, and the position-advancing operations likewise accept unevaluated arguments.',
  ['inputs', 'programs'], 'all component values, all choices of which arguments are evaluated or lazy, direct and curried forms',
  'Tests check one value per accessor, nearly always already evaluated.',
  [V+'accept.hpp', V+'reject.hpp', V+'is_error.hpp', V+'unless_error.hpp', V+'get_result.hpp', V+'get_remaining.hpp', V+'get_position.hpp', V+'get_message.hpp', V+'get_line.hpp', V+'get_col.hpp', V+'get_prev_char.hpp', V+'fwd'],
  [('accept / reject', V+'accept.hpp, '+V+'reject.hpp'), ('get_*_impl', V+'fwd')],
  'accessor metafunctions')

P('C19', 'Parsing does not depend on how the input text is represented',
  'A parser applied to the same characters gives the same outcome and leaves the same remaining characters whether the text is held in a compile-time string, an MPL list, vector, deque or any other sequence of boxed characters offering emptiness test, first element and removal at the front, at any length the sequence supports.',
  ['inputs', 'programs', 'configurations'], 'all parsers, all inputs, all sequence types usable as compile-time strings',
  'Tests use one representation per parser.',
  [V+'one_char.hpp', V+'empty.hpp', V+'keyword.hpp', V+'impl/string_iterator.hpp', V+'cpp11/string.hpp', V+'cpp98/string.hpp'],
  [('mpl::front / pop_front / empty use', V+'one_char.hpp')],
  'parsing results per representation')

P('C20', 'Value-producing and transforming parsers change only the result',
  'Transforming, filtering and constant-valued parsers (transform, accept-when, always, return, fail, always for one character, template-applying sequence) accept exactly when documented, produce exactly the documented value - the function applied to the operand\'s result exactly once - and leave the operand\'s remaining text and position; a rejecting operand\'s error passes through unchanged. Returning a value and failing consume nothing.',
  ['inputs', 'programs'], 'all operand parsers, functions, predicates, values and inputs',
  'Tests apply one function to one character.',
  [V+'transform.hpp', V+'accept_when.hpp', V+'always.hpp', V+'always_c.hpp', V+'return_.hpp', V+'fail.hpp', V+'sequence_apply.hpp'],
  [('transform', V+'transform.hpp'), ('accept_when', V+'accept_when.hpp')],
  'parsing results')

P('C21', 'Public headers are sufficient in any combination and order',
  'Including only the public headers documented for the names a program uses, in any order and any number of times, is enough to compile it, and it then behaves as with the all-in-one header. Every unversioned public name denotes the same entity as its version 1 counterpart, and the version macro decomposes into its components as documented.',
  ['programs', 'configurations'], 'all subsets and orders of public headers with programs using their names, all standards and compilers',
  'Tests include a generous fixed set of headers; a missing transitive include only shows when a template is instantiated with exactly the wrong subset.',
  ['include/boost/metaparse', V, 'include/boost/metaparse.hpp', 'include/boost/metaparse/version.hpp'],
  [('public forwarding headers', 'include/boost/metaparse/*.hpp'), ('header internal includes', V+'*.hpp')],
  'compiler exit status, results of the compiled program')


P('C22', 'The string header generator supports the requested maximum length',
  'For every positive maximum length and step, running the string header generator on a copy of the headers produces headers with which, for every size limit up to the requested maximum, the string macro yields exactly the literal\'s characters for every literal within the limit and does not compile for a longer one; a size limit above the generated maximum (the requested one rounded up to a multiple of the step) is refused. Without arguments it regenerates headers supporting 2048 in the library it belongs to. Arguments that are not positive numbers or name a missing directory are refused and leave the headers as they were.',
  ['inputs', 'configurations'], 'all maximum lengths and steps (multiples of the step, one more, one less, steps above the maximum), all limits and literal lengths up to the maximum',
  'No test runs the generator at all; only the one header it once produced is exercised.',
  ['tools/string_headers.py', V+'cpp11/impl/string.hpp', V+'cpp11/impl/string_at.hpp', V+'cpp11/impl/concat.hpp'],
  [('length_limits, generate_make_string, generate_string', 'tools/string_headers.py')],
  'exit status of the generator, compilation and identity of the strings produced by the macro with the generated headers')

P('C23', 'User-written building blocks work like the built-in ones',
  'Every combinator accepts any operand that satisfies the documented concept and behaves with it as with a built-in one: a parser written by the user, also when only the ::type of its apply is the outcome or when the outcome is rebuilt from its parts; functions, predicates and error transformers given as any kind of metafunction class (inheriting or type-only apply, quoted template, evaluated lambda expression, boxed result), which receive evaluated values as arguments; characters, indices and counts boxed in any type with a value or given by a nullary metafunction returning such a box; and user-defined error messages.',
  ['programs', 'inputs', 'configurations'], 'all parser compositions in which any subset of the nodes and arguments is user-written, all inputs, every standard\'s implementation',
  'Tests pass almost only built-in parsers, whose apply happens to be the outcome itself, and MPL boxes; a combinator relying on more than the concept offers is not noticed.',
  [V+'cpp11/sequence.hpp', V+'cpp98/sequence.hpp', V+'impl/apply_parser.hpp', V+'cpp11/one_of.hpp', V+'foldl.hpp', V+'foldr_start_with_parser.hpp', V+'optional.hpp', V+'transform.hpp', V+'accept_when.hpp', V+'transform_error.hpp', V+'transform_error_message.hpp', V+'entire_input.hpp', V+'lit.hpp', V+'range.hpp', V+'iterate.hpp', V+'nth_of.hpp', V+'is_error.hpp', V+'unless_error.hpp'],
  [('use of P::apply', V+'*.hpp'), ('evaluation of arguments', V+'is_error.hpp, '+V+'get_result.hpp, '+V+'get_remaining.hpp, '+V+'get_position.hpp')],
  'parsing results')

for p in props:
    fs = p['anchors']['files']
    p['anchors']['files'] = [f for f in dict.fromkeys(fs) if '..' not in f]
    for f in p['anchors']['files']:
        if not os.path.exists('/repo/' + f): print('missing', p['id'], f)
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in props: f.write(json.dumps(p) + '\n')
