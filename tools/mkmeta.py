#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the list)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/boost/metaparse/v1/'


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=[f if f.startswith('include') else I + f for f in files],
                mech=mech, observe=observe, technique=technique, note=note)


TV = ('TLA+ specification (spec/Metaparse.tla, spec/Machine.tla, spec/Session.tla) checked with TLC; '
      'sessions generated from it by TLC are replayed into the real headers (g++ C++98/11/14/17, clang++), and '
      'every recorded session is validated by TLC as a behaviour of the specification (spec/Trace.tla)')
SESS = ('Exhaustive small universes of parser terms and words, sweeps (arity, length, all characters, odd start '
        'positions) and seeded random terms; every session is one TLC-checked behaviour. Not a proof beyond the bounds.')

PROPS = [
P('C01', 'Source positions are those of the consumed text',
  'Whenever a parser accepts, the position it returns is the starting position advanced over exactly the characters it consumed: '
  'line feeds, carriage returns and carriage return + line feed pairs each start one new line whose columns count from 1, every other character advances the column. '
  'Whenever a parser rejects, the reported position is the position of some place in its input, at or after the start, that it had reached.',
  ['inputs', 'programs', 'configurations'],
  'every parser composition, every input text (all line-ending mixtures), every starting position, every supported C++ standard',
  'The tests check a few hand-written positions; a position goes wrong for a specific mixture of line endings, combinator and starting position.',
  ['source_position.hpp', 'next_char.hpp', 'next_line.hpp', 'one_char.hpp', 'keyword.hpp'],
  [('position advance', I + 'next_char.hpp, ' + I + 'next_line.hpp'), ('line-ending detection', I + 'one_char.hpp next_pos'),
   ('order of positions', I + 'source_position.hpp')],
  'position member of accepted and rejected results', TV, SESS),
P('C02', 'The remaining input is exactly the unconsumed suffix',
  'Whenever a parser accepts, the remaining text it returns is the suffix of its input after the characters it consumed - nothing lost, duplicated, reordered or altered - and applying '
  'further parsers to it continues exactly there. Which prefix is consumed depends only on the characters of the text and the parser, not on the kind of sequence that holds the text.',
  ['inputs', 'programs', 'histories', 'configurations'],
  'every parser composition, every session of successive parsers on one input, every input container, every supported C++ standard',
  'Tests look at remaining inputs of one or two characters for single parsers in one container.',
  ['one_char.hpp', 'accept.hpp', 'get_remaining.hpp', 'foldl.hpp', 'foldr.hpp', 'repeated.hpp', 'cpp11/impl/pop_front.hpp', 'cpp98/impl/pop_front.hpp'],
  [('consumption', I + 'one_char.hpp'), ('string pop_front', I + 'cpp11/impl/pop_front.hpp'), ('backtracking of folds', I + 'foldl.hpp, ' + I + 'foldr.hpp')],
  'remaining member of accepted results', TV, SESS),
P('C03', 'Character parsers accept exactly their class, for every character',
  'Each single-character parser (literal, any character, digit, letter, whitespace, alphanumeric, range, any of / none of given characters, predicate-filtered) accepts exactly the characters of its '
  'documented class among all 256 character values, consuming one character and returning it (or its digit value). For every other character, and at the end of the input, it rejects without consuming, with its documented error.',
  ['inputs', 'programs', 'configurations'],
  'all 256 character values, every class, ranges including empty and negative ones, character sets of every supported size, every supported C++ standard',
  'Tests sample two or three characters per class; boundary characters and negative values are not covered.',
  ['lit.hpp', 'lit_c.hpp', 'digit.hpp', 'digit_val.hpp', 'letter.hpp', 'space.hpp', 'alphanum.hpp', 'range.hpp', 'range_c.hpp', 'one_char.hpp',
   'cpp11/one_char_except.hpp', 'cpp11/one_char_except_c.hpp', 'cpp98/one_char_except.hpp', 'cpp14/one_of_c.hpp', 'accept_when.hpp', 'util'],
  [('classification', I + 'util/is_digit.hpp, is_letter.hpp, is_whitespace.hpp'), ('range test', I + 'util/in_range.hpp'), ('none-of test', I + 'cpp11/impl/is_none_c.hpp'), ('any-of test', I + 'cpp11/impl/any_of_c.hpp')],
  'outcome of the parser', TV, 'All 256 characters for every class; sets of 1..24 characters; ranges at the edges of the character type.'),
P('C04', 'Sequencing runs its parsers in order and keeps the right results',
  'Running parsers in sequence applies each to what the previous one left, accepts only if all accept, and yields exactly the results asked for: all of them in order, the n-th, first, last, middle one, or the given template instantiated with them, '
  'for every number of parsers; repetition a fixed number of times behaves like that many copies. The first rejection stops the sequence and is reported as it is, except that a missing closing element of a bracketed construct is reported as unpaired with the position of its opening; an out-of-range index is rejected with the valid range.',
  ['inputs', 'programs', 'configurations'],
  'every list of parsers up to the configured size, every index, every input', 'Tests use up to three parsers and a couple of inputs; wrong element selection or wrong threading shows only for specific arities and indexes.',
  ['cpp11/sequence.hpp', 'cpp98/sequence.hpp', 'cpp11/nth_of_c.hpp', 'cpp11/impl/nth_of_c.hpp', 'cpp98/nth_of_c.hpp', 'cpp11/first_of.hpp', 'cpp11/last_of.hpp', 'cpp98/first_of.hpp', 'cpp98/last_of.hpp', 'middle_of.hpp', 'sequence_apply.hpp', 'iterate_c.hpp', 'impl/iterate_impl.hpp'],
  [('sequence threading', I + 'cpp11/sequence.hpp, ' + I + 'cpp98/sequence.hpp'), ('skipping', I + 'cpp11/impl/nth_of_c_skip_remaining.hpp, ' + I + 'cpp98/impl/skip_seq.hpp'), ('unpaired', I + 'middle_of.hpp')],
  'outcome of the parser', TV, SESS),
P('C05', 'Ordered choice: first alternative that accepts, else furthest error',
  'Choosing between alternatives applies them to the same input in order and returns the outcome of the first one that accepts, whatever failed before it, for every number of alternatives. '
  'If none accepts it rejects with the error of the alternative that got furthest into the text; choosing repeatedly behaves like repeating the choice.',
  ['inputs', 'programs', 'configurations'], 'every list of alternatives up to the configured size, failing at any depth, and every input',
  'The alternatives have to fail at different depths in a specific order for a wrong error selection to show; tests use immediate failures.',
  ['cpp11/one_of.hpp', 'cpp98/impl/one_of.hpp', 'cpp98/one_of.hpp', 'cpp98/impl/one_of_fwd_op.hpp', 'cpp11/one_of_c.hpp', 'cpp14/one_of_c.hpp', 'cpp98/one_of_c.hpp', 'cpp11/repeated_one_of.hpp', 'cpp11/repeated_one_of1.hpp', 'optional.hpp'],
  [('choice and error selection', I + 'cpp11/one_of.hpp, ' + I + 'cpp98/impl/one_of.hpp, ' + I + 'cpp98/impl/one_of_fwd_op.hpp')], 'outcome of the parser', TV, SESS),
P('C06', 'Look-ahead and conditional parsers consume nothing when they should not',
  'The look-ahead parser, the negative (except) parser, the conditional parser and the fails-at-first-character parser decide on what their argument would do but leave input and position where they were; an optional parser consumes only if its argument accepts, and otherwise yields its default. '
  'Their acceptance, result, error and error position follow their argument as documented, for every argument and input, also when nested or followed by other parsers.',
  ['inputs', 'programs', 'histories', 'configurations'], 'every argument parser (consuming, failing at any depth, empty), every input, every nesting',
  'Needs an argument that consumes before deciding and a follow-up parser that notices; tests use single characters.',
  ['look_ahead.hpp', 'except.hpp', 'if_.hpp', 'optional.hpp', 'fail_at_first_char_expected.hpp'],
  [('restoring input and position', I + 'look_ahead.hpp, except.hpp, if_.hpp, optional.hpp'), ('first-character test', I + 'fail_at_first_char_expected.hpp')], 'outcome of the parser and of those following it', TV, SESS),
P('C07', 'Left folds and repetition are greedy and combine from the left',
  'Left folds and repetitions apply their parser as often as it accepts and no more, stop before the first rejection without consuming any of the partial element, and combine all results in order from the left starting with the initial state (or with the result of the starting parser). '
  'The at-least-one variants reject with the error of the first application when it rejects; the number of repetitions is not limited by anything but the input.',
  ['inputs', 'programs', 'configurations'], 'every element parser that consumes, every input, any number of repetitions', 'Tests fold over two or three one-character elements; partial elements, long inputs and element parsers with several characters are not covered.',
  ['foldl.hpp', 'foldl1.hpp', 'foldl_start_with_parser.hpp', 'repeated.hpp', 'repeated1.hpp', 'cpp11/repeated_one_of.hpp'],
  [('left fold', I + 'foldl.hpp'), ('at least one', I + 'foldl1.hpp'), ('start parser', I + 'foldl_start_with_parser.hpp')], 'outcome of the parser', TV, SESS),
P('C08', 'Right folds are greedy and combine from the right',
  'Right folds apply their parser as often as it accepts and no more, then combine all results from the last to the first starting with the initial state or with the result of a final parser applied where the repetition stopped. '
  'The at-least-one variant rejects with the error of the first application when it rejects, and a rejection of the final parser is reported as it is.',
  ['inputs', 'programs', 'configurations'], 'every element parser that consumes, every final parser, every input, any number of repetitions', 'Order of combination and stopping place differ only for particular inputs; tests use up to three one-character elements.',
  ['foldr.hpp', 'foldr1.hpp', 'foldr_start_with_parser.hpp'], [('right fold', I + 'foldr.hpp'), ('final parser', I + 'foldr_start_with_parser.hpp')], 'outcome of the parser', TV, SESS),
P('C09', 'Reject-incomplete repetitions never hide a half-parsed element',
  'The reject-incomplete variants of folds and repetition behave like the plain ones as long as the element that ends the repetition fails at its first character. '
  'If the last element was begun but not finished, they reject with the error and at the position at which that element failed, no matter how many elements were accepted before.',
  ['inputs', 'programs', 'configurations'], 'every element parser failing at any depth, every number of complete elements before it, every input', 'Tests contain one incomplete element after at most one complete element.',
  ['foldl_reject_incomplete.hpp', 'foldl_reject_incomplete1.hpp', 'foldl_reject_incomplete_start_with_parser.hpp', 'foldr_reject_incomplete.hpp', 'foldr_reject_incomplete1.hpp', 'repeated_reject_incomplete.hpp', 'repeated_reject_incomplete1.hpp', 'fail_at_first_char_expected.hpp'],
  [('incomplete element test', I + 'fail_at_first_char_expected.hpp'), ('folds', I + 'foldl_reject_incomplete.hpp, ' + I + 'foldr_reject_incomplete.hpp')], 'outcome of the parser', TV, SESS),
P('C10', 'Errors surface unchanged except where a combinator says otherwise',
  'The error (message and position) of the sub-parser responsible for a rejection is the error of the whole composition; parsers that accept are never turned into errors and errors never into acceptance except by combinators documented to do so. '
  'Replacing the message, transforming the message and transforming the whole error change exactly what they are documented to change, apply exactly once per layer from the inside out, and leave accepted results alone.',
  ['inputs', 'programs', 'configurations'], 'every failing parser inside every nesting of combinators and error transformations, every input', 'Error paths through nested combinators are combinatorial; tests check single layers.',
  ['transform_error.hpp', 'transform_error_message.hpp', 'change_error_message.hpp', 'unless_error.hpp', 'reject.hpp', 'fail.hpp', 'is_error.hpp', 'get_message.hpp', 'get_position.hpp'],
  [('error transformation', I + 'transform_error.hpp, transform_error_message.hpp, change_error_message.hpp'), ('propagation', I + 'unless_error.hpp')], 'message and position of rejected results', TV, SESS),
P('C11', 'Results are transformed exactly as specified and otherwise kept',
  'Transforming a result applies the given function to the result exactly once, replacing a result yields exactly the given value, filtering by a predicate keeps the result or rejects at the start of the parser, and a parser that returns a value consumes nothing. '
  'Results of inner parsers pass through all other combinators unaltered, and errors are not touched.',
  ['inputs', 'programs', 'configurations'], 'every inner parser and result kind, every nesting, every input', 'Tests use one transformation on one character.',
  ['transform.hpp', 'always.hpp', 'always_c.hpp', 'return_.hpp', 'accept_when.hpp', 'get_result.hpp', 'accept.hpp'], [('transform', I + 'transform.hpp'), ('filter', I + 'accept_when.hpp')], 'result member of accepted results', TV, SESS),
P('C12', 'Keywords, tokens, integers and whole-input parsing',
  'A keyword accepts exactly its own text; a token accepts what its parser accepts and additionally swallows all whitespace that follows; whitespace runs are at least one whitespace character; the integer parser reads the longest run of digits and yields its decimal value; '
  'the end-of-input and entire-input parsers accept only when nothing is left and otherwise reject at the first character left over.',
  ['inputs', 'programs', 'configurations'], 'every keyword and every prefix/extension of it, every whitespace mixture, every number up to nine digits, every input', 'Tests sample a handful of texts.',
  ['keyword.hpp', 'token.hpp', 'spaces.hpp', 'int_.hpp', 'impl/next_digit.hpp', 'empty.hpp', 'entire_input.hpp', 'util/digit_to_int.hpp'], [('keyword', I + 'keyword.hpp'), ('integer', I + 'int_.hpp, ' + I + 'impl/next_digit.hpp')], 'outcome of the parser', TV, SESS),
P('C13', 'Recursively defined parsers parse nested input of any depth',
  'A parser defined in terms of itself (directly or through other parsers) accepts exactly the texts of the recursive grammar it denotes and builds the corresponding nested result. '
  'Nesting and list length are bounded only by the compiler, and unbalanced texts are rejected at the place where they go wrong.',
  ['inputs', 'programs'], 'all texts over the grammars\' alphabets up to the bound, deep nestings, odd start positions', 'Tests and examples parse a few fixed expressions.',
  ['middle_of.hpp', 'cpp11/one_of.hpp', 'foldl_start_with_parser.hpp', 'cpp11/sequence.hpp'], [('lazy parser arguments', I + 'impl/apply_parser.hpp')], 'outcome of the parser', TV, SESS),
P('C14', 'The outcome does not depend on language standard, spelling or container',
  'For one parser composition and one text, acceptance, result, remaining text and position are the same under every supported language standard and compiler, for the value and the constant spelling of a combinator, and for every container holding the text. '
  'The error message is the same too, except that when alternatives fail equally far any of their messages (or the generic one) may be reported.',
  ['configurations', 'programs', 'inputs'], 'C++98/11/14/17 implementations, g++ and clang++, value/constant spellings, string/list/vector inputs, random compositions', 'Each test runs in the one standard the build uses: the pre-C++11 implementation is a separate code base.',
  ['cpp98', 'cpp11', 'cpp14', 'include/boost/metaparse/config.hpp'], [('selection', 'include/boost/metaparse/config.hpp'), ('three implementations', I + 'cpp98, ' + I + 'cpp11, ' + I + 'cpp14')], 'outcome of the parser', TV, SESS),
P('C15', 'Compile-time strings are immutable character sequences',
  'A string behaves as the sequence of its characters, for every length up to the configured limit and every character value: size, emptiness, front, back, n-th element, iteration, both ways of adding and removing at either end, '
  'range copying, equality and its null-terminated value all agree with that sequence, after any history of operations. Operations yield new strings and never lose, duplicate or alter a character.',
  ['inputs', 'histories', 'configurations'], 'every string up to the limit, every character value, every history of sequence operations, C++98 and C++11 implementations',
  'Tests use one fixed "hello"; off-by-one errors show only for particular lengths, positions and characters.',
  ['cpp11/string.hpp', 'cpp98/string.hpp', 'cpp11/impl/pop_back.hpp', 'cpp98/impl/pop_front.hpp', 'cpp98/impl/pop_back.hpp', 'cpp98/impl/update_c.hpp', 'cpp98/impl/size.hpp', 'impl/string_iterator.hpp'],
  [('sequence operations', I + 'cpp11/string.hpp, ' + I + 'cpp98/string.hpp'), ('iterators', I + 'impl/string_iterator.hpp')],
  'values of the MPL sequence operations and of the string itself',
  'TLA+ state machine of a string value (spec/StringSeq.tla): histories of operations generated by TLC are replayed into the real string class and every observation recorded after every operation is validated by TLC (spec/StringTrace.tla)',
  'All short strings exhaustively, all characters, all lengths up to the limit, seeded random histories. Not a proof beyond the bounds.'),
P('C16', 'String literals arrive exactly, at every length and limit',
  'The string macros turn a literal into the compile-time string with exactly the characters of the literal, at every length up to the configured limit - including embedded zeroes, non-ASCII characters and all escapes - independently of how the limit is configured. '
  'A literal longer than the limit is rejected by the compiler instead of being truncated.',
  ['inputs', 'configurations'], 'every literal length and position, every character value, every configured limit, every standard with the macro',
  'The macro is generated code with one entry per position; tests use a few literals.',
  ['cpp11/impl/string.hpp', 'cpp11/impl/string_at.hpp', 'cpp11/impl/concat.hpp', 'string.hpp', 'string_value.hpp', 'include/boost/metaparse/limit_string_size.hpp', 'impl/assert_string_length.hpp'],
  [('literal to characters', I + 'cpp11/impl/string.hpp'), ('length check', I + 'impl/assert_string_length.hpp')],
  'characters of the string, or failure to compile',
  'TLA+ specification of literal construction (spec/Literal.tla): literals and limits generated by TLC are compiled with the real macro, the recorded strings or compile failures are validated by TLC (spec/LiteralTrace.tla)',
  'Every length and position at the covered limits (in steps beyond 128 in the quick tier), all characters.'),
P('C17', 'The grammar front end builds the parser its rules describe',
  'A parser built from textual grammar rules accepts exactly what the rules say, from the chosen start rule: character terminals including escapes, rule references (also forward ones), alternatives, concatenation, grouping, repetition (* and +), in the documented precedence, with imported parsers under their names. '
  'Its results are those of the corresponding combinators, semantic actions are applied to the results of exactly the rules they are attached to, and white space in rules means nothing.',
  ['inputs', 'programs', 'configurations'], 'every set of grammar rules the notation can express, every text', 'Tests contain a dozen one-rule grammars with one or two words each; precedence, escapes, nesting and rule order are combinatorial.',
  ['grammar.hpp'], [('grammar of the rules', I + 'grammar.hpp')], 'outcome of the parser built',
  'TLA+ specification of the rule notation and its meaning (spec/Grammar.tla, translating rule texts to parser terms of spec/Metaparse.tla): grammars and words generated by TLC are compiled with the real front end and every recorded outcome is validated by TLC (spec/GrammarTrace.tla)',
  'Rule expressions exhaustively up to a size, white-space and escape variants, multi-rule grammars, words over the alphabet. Not a proof beyond the bounds.'),
P('C18', 'A built parser yields the result, or a compile error naming the place',
  'A parser turned into a simple function from texts to results yields exactly the result of parsing the text from its beginning whenever the parser accepts, no matter how much of the text it leaves over. '
  'Whenever the parser rejects, the program does not compile, and the compiler\'s diagnostic names the line, the column and the error message of the rejection.',
  ['inputs', 'programs', 'configurations'], 'every parser composition, every text, every supported C++ standard, g++ and clang++ diagnostics', 'The tests only build accepting programs, and only for two parsers; a rejection that compiles or blames the wrong place is never exercised.',
  ['build_parser.hpp', 'get_line.hpp', 'get_col.hpp', 'get_message.hpp', 'start.hpp'], [('result or failure', I + 'build_parser.hpp')], 'the resulting type, or the compiler diagnostic',
  'TLA+ specification of the client interface (spec/Report.tla): programs generated by TLC are compiled, and every recorded result or diagnostic (line, column, message) is validated by TLC (spec/ReportTrace.tla)',
  'Every kind of error at several places of multi-line texts, every character, seeded random parsers and texts; each rejected program is one compiler run.'),
P('C19', 'Parse reports and error texts say what happened and where',
  'The report printed for a parser and a text shows the text, says whether parsing was successful, and gives the text left over, or the line, the column and the text of the error; then the program exits. '
  'Every error message of the library has its documented text, with the character, index range or opening position it carries rendered exactly.',
  ['inputs', 'programs', 'configurations'], 'every parser composition and text, every error kind with every argument, every supported C++ standard', 'No test looks at the report, and only some error texts are compared.',
  ['debug_parsing_error.hpp', 'define_error.hpp', 'error/index_out_of_range.hpp', 'error/literal_expected.hpp', 'error/unpaired.hpp', 'error/digit_expected.hpp', 'error/end_of_input_expected.hpp',
   'error/expected_to_fail.hpp', 'error/letter_expected.hpp', 'error/none_of_the_expected_cases_found.hpp', 'error/unexpected_character.hpp', 'error/unexpected_end_of_input.hpp', 'error/whitespace_expected.hpp'],
  [('report', I + 'debug_parsing_error.hpp'), ('texts', I + 'error')], 'standard output and exit status of the program',
  'TLA+ specification of the report (spec/Report.tla): parsers and texts generated by TLC are run through the real report in a child process, and every recorded output is validated by TLC (spec/ReportTrace.tla)',
  'Every kind of error at several places of multi-line texts, every character in texts and messages, seeded random parsers and texts.'),
P('C20', 'Character and number utilities are right for every value',
  'The character predicates (digit, letter, lower case, upper case, whitespace) are true for exactly their class among all 256 characters, digit conversion maps each digit character to its value and back and yields the digit-expected error for any other character, and the range test is true exactly for values between its bounds, bounds included. '
  'They give the same answer however they are called: with values or with expressions yielding them, all arguments at once or some now and the rest later, and in their constant form.',
  ['inputs', 'configurations'], 'all 256 characters, all digits, bounds of either sign and order and every integral type, every calling form, every supported C++ standard', 'Tests sample two or three values in one calling form.',
  ['util/digit_to_int.hpp', 'util/digit_to_int_c.hpp', 'util/in_range.hpp', 'util/in_range_c.hpp', 'util/int_to_digit.hpp', 'util/int_to_digit_c.hpp', 'util/is_digit.hpp', 'util/is_lcase_letter.hpp',
   'util/is_letter.hpp', 'util/is_ucase_letter.hpp', 'util/is_whitespace.hpp', 'util/is_whitespace_c.hpp'], [('utilities', I + 'util')], 'value returned by the utility',
  'TLA+ specification of the utilities (spec/Values.tla): calls generated by TLC are compiled in varying calling forms and every recorded value is validated by TLC (spec/ValuesTrace.tla)',
  'All characters and digits exhaustively; bounds from an edge set.'),
P('C21', 'Positions and parsing results behave as immutable values',
  'Source positions are totally and consistently ordered by line, then column, then previous character, and advancing a position by a character or a line changes exactly the documented components and never goes back. '
  'Parsing results give back exactly the result, remaining text, message and position they were made of, are told apart as accepted or rejected, and an unless-error expression yields the error if there is one and the alternative otherwise - equally for values and for expressions yielding them.',
  ['inputs', 'histories', 'configurations'], 'all pairs of positions that differ in any component, every character, every history of operations building values from earlier ones', 'Tests compare a handful of positions and never chain the operations.',
  ['source_position.hpp', 'source_position_tag.hpp', 'next_char.hpp', 'next_line.hpp', 'get_line.hpp', 'get_col.hpp', 'get_prev_char.hpp', 'accept.hpp', 'reject.hpp', 'accept_tag.hpp', 'fail_tag.hpp', 'get_result.hpp', 'get_remaining.hpp', 'get_position.hpp', 'get_message.hpp', 'is_error.hpp', 'unless_error.hpp', 'start.hpp'],
  [('order', I + 'source_position.hpp'), ('advance', I + 'source_position_tag.hpp'), ('accessors', I + 'accept_tag.hpp, ' + I + 'fail_tag.hpp')], 'values of the accessors and comparisons',
  'TLA+ state machine of values computed from earlier values (spec/Values.tla): computations generated by TLC are compiled, with values and with unevaluated expressions, and every recorded observation is validated by TLC (spec/ValuesTrace.tla)',
  'Exhaustive comparison of positions over an edge set, all characters, seeded random computations.'),
P('C22', 'Configured limits are usable in full',
  'Everything that takes a list of things up to a configurable limit (parsers in sequence, alternatives, excepted characters, characters of a string) works the same at every size from one up to and including the limit, for every value of the limits. '
  'Raising or lowering a limit changes nothing else.',
  ['configurations', 'programs', 'inputs'], 'every configured limit, every list length up to it, matching and failing at every place',
  'Tests run with the default limits and never reach them.',
  ['cpp98/sequence.hpp', 'cpp98/nth_of.hpp', 'cpp98/nth_of_c.hpp', 'cpp98/first_of.hpp', 'cpp98/last_of.hpp', 'cpp98/one_of.hpp', 'cpp98/one_of_c.hpp', 'cpp98/one_char_except.hpp', 'cpp98/one_char_except_c.hpp', 'cpp98/repeated_one_of.hpp', 'cpp98/repeated_one_of1.hpp', 'cpp98/string.hpp',
   'include/boost/metaparse/limit_sequence_size.hpp', 'include/boost/metaparse/limit_one_of_size.hpp', 'include/boost/metaparse/limit_one_char_except_size.hpp', 'include/boost/metaparse/limit_string_size.hpp'],
  [('preprocessor-generated argument lists', I + 'cpp98')], 'outcome of the parser', TV, 'Sizes 1..30 (lists) and 1..71 (strings) at six settings of the limits.'),
P('C23', 'Nothing is applied that the outcome does not need',
  'Applying a parser to a text applies only those of its sub-parsers whose outcome is needed, and only where it is needed: no alternative after the one that accepts, no parser of a sequence after the one that rejects, no final parser before the repetition stopped, none at all when the index is out of range or the count is zero. '
  'The functions given to transforms, filters, error transforms and folds are only called on results (or errors) that there are. '
  'So a sub-parser or function that does not even compile for a text does no harm where it is not needed, under every language standard.',
  ['programs', 'inputs', 'configurations'], 'every composition and every text of which a run leaves some sub-parser or function alone',
  'Tests use parsers that can be applied to anything, so it goes unnoticed when they are applied in vain.',
  ['cpp11/one_of.hpp', 'cpp98/impl/one_of_fwd_op.hpp', 'cpp11/sequence.hpp', 'cpp98/impl/sequence_impl.hpp', 'cpp11/impl/nth_of_c.hpp', 'cpp11/impl/nth_of_c_skip_remaining.hpp', 'cpp98/impl/nth_of_c_impl.hpp', 'cpp98/impl/skip_seq.hpp', 'impl/iterate_impl.hpp', 'foldl.hpp', 'foldr.hpp', 'transform.hpp', 'transform_error.hpp', 'accept_when.hpp', 'unless_error.hpp'],
  [('short-circuit evaluation', I + 'unless_error.hpp'), ('choice', I + 'cpp11/one_of.hpp, ' + I + 'cpp98/impl/one_of_fwd_op.hpp')], 'whether the program compiles, and the outcome of the parser',
  'TLA+ machine with the invariant OnlyNeeded (spec/Machine.tla, spec/Lazy.tla): TLC computes what a run has no use for and replaces it by parsers and functions that do not compile; the sessions are replayed into the library and validated by TLC', SESS),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': [p['observe']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 /verif/check.py --setup',
         'checks': [{'property': p['id'],
                     'quick_cmd': 'cd /verif && VERIF_TIER=quick python3 check.py ' + p['id'],
                     'thorough_cmd': 'cd /verif && VERIF_TIER=thorough python3 check.py ' + p['id'],
                     'technique': p['technique'], 'level': 'model_checking',
                     'level_note': p['note']} for p in PROPS],
         'not_applicable': NOT_APPLICABLE,
         'notes': 'TLA+/TLC. Checks compile /repo/include directly; no hooks in /repo.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        for x in p['files']:
            if not os.path.exists('/repo/' + x):
                print('missing', p['id'], x)


main()
