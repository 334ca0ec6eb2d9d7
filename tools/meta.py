#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/boost/metaparse/v1/'
P = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, reason=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[I + f for f in files], mech=mech, claim=claim, reason=reason, note=note))
WHY = 'Each test fixes a handful of literal inputs, nearly always parsed from the start position, in the shapes the test author thought of; '

prop('C01', 'Source positions follow the text read',
 'Reading a character moves the position to the next column, except that a line ending (\\n, \\r, or \\r\\n counted once) moves it to column 1 of the next line; the position also remembers the character just read. '
 'Line and column after reading any text from any position are therefore those of the first unread character. Positions compare by line, then column, then previous character, and the comparisons are consistent with each other.',
 ['inputs'], 'every text of up to 6 (thorough 7) characters, any start line/column up to 10^6 and any previous character; every pair of positions',
 WHY + 'position tests count at most two characters and compare fixed constants.',
 ['one_char.hpp', 'next_char.hpp', 'next_line.hpp', 'start.hpp', 'source_position.hpp', 'source_position_tag.hpp', 'get_line.hpp', 'get_col.hpp', 'get_prev_char.hpp'],
 [('one_char chooses next_line or next_char from the previous and current character', 'one_char.hpp'), ('lexicographic comparison of positions', 'source_position.hpp')])
prop('C02', 'Character parsers accept exactly their characters',
 'one_char, digit, letter, alphanum, space, lit(_c), range(_c), one_char_except(_c) accept a first character exactly when it belongs to the documented set, return that character, and leave the rest of the input at the position after it. '
 'Otherwise, and on empty input, they reject at the start position with the documented message.',
 ['inputs', 'configurations'], 'every first character (all 256 values), every parser argument character, inputs of 0 to 3 characters, any start position, C++98/11/14 variants',
 WHY + 'the boundaries of the character sets and negative character values are not sampled.',
 ['one_char.hpp', 'digit.hpp', 'letter.hpp', 'alphanum.hpp', 'space.hpp', 'lit.hpp', 'lit_c.hpp', 'range.hpp', 'range_c.hpp', 'cpp11/one_char_except_c.hpp', 'cpp98/one_char_except_c.hpp', 'cpp98/one_char_except.hpp', 'cpp11/one_char_except.hpp'],
 [('accept_when over one_char with a character predicate, change_error_message', 'digit.hpp, letter.hpp, lit_c.hpp, range.hpp'), ('is_none_c / is_none', 'cpp11/impl, cpp98/impl')])
prop('C03', 'int_ computes the decimal value of the digits',
 'int_ consumes the longest non-empty prefix of decimal digits and returns its decimal value, leaving the first non-digit; without a leading digit it rejects at the start. digit_val returns the value of one digit.',
 ['inputs'], 'every string of up to 8 characters, all numbers of 9 digits and of 10 digits below 2000000000, leading zeros, any start position', WHY + 'a handful of numbers.',
 ['int_.hpp', 'digit_val.hpp', 'impl/next_digit.hpp', 'foldl1.hpp', 'foldl.hpp', 'util/digit_to_int.hpp'], [('foldl1 over digit with next_digit', 'int_.hpp')])
prop('C04', 'Character utilities agree with the ASCII classes',
 'is_digit, is_lcase_letter, is_ucase_letter, is_letter, is_whitespace(_c), in_range(_c), digit_to_int(_c) and int_to_digit(_c) give the documented answer for every character and number; digit_to_int and int_to_digit are inverse on 0..9, and digit_to_int of a non-digit is an error.',
 ['inputs'], 'all 256 character values, all int bounds, applied directly and as metafunction classes', WHY + 'one or two characters per predicate.',
 ['util/is_digit.hpp', 'util/is_letter.hpp', 'util/is_lcase_letter.hpp', 'util/is_ucase_letter.hpp', 'util/is_whitespace_c.hpp', 'util/is_whitespace.hpp', 'util/in_range.hpp', 'util/in_range_c.hpp', 'util/digit_to_int.hpp', 'util/digit_to_int_c.hpp', 'util/int_to_digit.hpp', 'util/int_to_digit_c.hpp'], [('comparisons of the character with the class bounds', 'util/*.hpp')])
prop('C05', 'string<> is a faithful MPL sequence of its characters',
 'For every string of up to LIMIT_STRING_SIZE characters of any value, size, empty, front, back, at, begin/end iteration (forwards, backwards, advance, distance, comparison), push_back, push_front, pop_back, pop_front, clear and c_str give what the character sequence says, in every supported standard, and operations compose.',
 ['inputs', 'configurations'], 'strings of 0..8 and 31/32 symbolic characters, every valid index, every standard', WHY + 'the words "hello" and similar; no string at the size limit, no unusual characters.',
 ['string.hpp', 'string_tag.hpp', 'impl/string_iterator.hpp', 'impl/string_iterator_tag.hpp', 'cpp98/string.hpp', 'cpp11/string.hpp', 'cpp98/impl/at_c.hpp', 'cpp98/impl/update_c.hpp', 'cpp98/impl/size.hpp', 'cpp98/impl/pop_front.hpp', 'cpp98/impl/push_front_c.hpp', 'cpp11/impl/at_c.hpp', 'cpp11/impl/pop_back.hpp', 'cpp11/impl/concat.hpp'], [('tag-dispatched MPL intrinsics over string_tag', 'cpp98/string.hpp, cpp11/string.hpp'), ('preprocessor-generated positional updates in C++98', 'cpp98/impl/update_c.hpp')])
prop('C06', 'BOOST_METAPARSE_STRING has exactly the characters of the literal',
 'BOOST_METAPARSE_STRING applied to a string literal yields the string of exactly the characters of the literal, in order, for every length up to the configured limit (whatever limit up to 2048 is configured) and every character content; a longer literal is refused by the compiler.',
 ['inputs'], 'literals of 0 to 32 characters of arbitrary content under the default limit; literals of up to 2048 characters under limits up to 2048', WHY + 'a few literals.',
 ['string.hpp', 'cpp11/impl/string.hpp', 'cpp11/impl/string_at.hpp', 'cpp11/impl/concat.hpp', 'impl/assert_string_length.hpp'], [('string_at per position, concatenation of pieces and removal of padding', 'cpp11/impl/string.hpp')])
prop('C07', 'sequence runs its parsers in order on what is left',
 'sequence and sequence_applyN apply each parser to the input and position its predecessor left and return all results in order (sequence_applyN: the given template over the results); at the first rejection they reject with exactly that message and position, and no later parser matters.',
 ['programs', 'inputs'], '1 to 5 arbitrary parsers (any combination of outcomes, consumption and positions) on inputs of up to 4 characters', WHY + 'sequences of two or three fixed parsers; failure of a middle parser and error positions are not observed.',
 ['cpp98/sequence.hpp', 'cpp98/impl/sequence_impl.hpp', 'cpp98/impl/sequence.hpp', 'cpp11/sequence.hpp', 'cpp11/impl/push_front_result.hpp', 'impl/apply_parser.hpp', 'sequence_apply.hpp'], [('apply_parser folded over the parsers (C++98); recursion with push_front_result (C++11)', 'impl/apply_parser.hpp, cpp11/sequence.hpp')])
prop('C08', 'one_of is ordered choice and reports the furthest error',
 'one_of accepts with the first alternative that accepts and returns exactly its outcome. When every alternative rejects it rejects with the message and position of the one that got furthest (on a tie beyond the start, the last of them; at the start the message may be the generic one). one_of_c accepts exactly the listed characters.',
 ['programs', 'inputs'], 'up to 4 (thorough 5) arbitrary alternatives on inputs of up to 3 characters, concrete alternatives on all short strings, one_of_c with up to 20 arbitrary characters', WHY + 'two or three alternatives; which error is reported is hardly observed.',
 ['one_of.hpp', 'cpp98/one_of.hpp', 'cpp98/impl/one_of.hpp', 'cpp98/impl/one_of_fwd_op.hpp', 'cpp98/impl/later_result.hpp', 'cpp11/one_of.hpp', 'cpp11/impl/eval_later_result.hpp', 'cpp11/one_of_c.hpp', 'cpp14/one_of_c.hpp', 'cpp98/one_of_c.hpp'], [('later_result picks between two rejections by position', 'cpp98/impl/later_result.hpp, cpp11/impl/eval_later_result.hpp')])
prop('C09', 'nth_of, first_of, last_of, middle_of run all, return one',
 'nth_of(_c), first_of, last_of and middle_of accept exactly when the corresponding sequence accepts, consume the same, and return the result of the selected parser; a rejection is the one of the first failing parser. middle_of reports a missing closing part as unpaired with the position of the opening one; an index outside the sequence is rejected with index_out_of_range.',
 ['programs', 'inputs'], '1 to 5 arbitrary parsers, every index including out of range, inputs of up to 3 characters', WHY + 'small fixed cases; consumption after the selected parser is rarely observed.',
 ['cpp98/nth_of_c.hpp', 'cpp98/impl/nth_of_c_impl.hpp', 'cpp98/impl/skip_seq.hpp', 'cpp11/nth_of_c.hpp', 'cpp11/impl/nth_of_c.hpp', 'cpp11/impl/nth_of_c_skip_remaining.hpp', 'cpp98/first_of.hpp', 'cpp11/first_of.hpp', 'cpp98/last_of.hpp', 'cpp11/last_of.hpp', 'middle_of.hpp', 'error/unpaired.hpp'], [('skip_seq / nth_of_c_skip_remaining run the parsers after the selected one', 'cpp98/impl/skip_seq.hpp, cpp11/impl/nth_of_c_skip_remaining.hpp')])
prop('C10', 'foldl family: maximal, left-associated repetition',
 'foldl, foldl1 and their start_with_parser and reject_incomplete variants apply the parser as long as it accepts, combine the results from the left starting from the given state (or initial parser result), and stop exactly before the first rejection. The 1-variants require one item; the reject_incomplete variants return the rejection of an item that fails after its first character instead of stopping.',
 ['programs', 'inputs'], 'an arbitrary item parser (and initial parser) on inputs of up to 4 characters with a free combining operation; concrete items on all short strings', WHY + 'fixed repetitions; where the last, failing item leaves input, position and result is not observed.',
 ['foldl.hpp', 'foldl1.hpp', 'foldl_start_with_parser.hpp', 'foldl_reject_incomplete.hpp', 'foldl_reject_incomplete1.hpp', 'foldl_reject_incomplete_start_with_parser.hpp'], [('recursion on the remaining input with the state as accumulator', 'foldl.hpp'), ('comparison of the rejection position with the item start', 'foldl_reject_incomplete.hpp')])
prop('C11', 'foldr family: maximal, right-associated repetition',
 'foldr, foldr1, foldr_start_with_parser and the reject_incomplete variants consume like their foldl counterparts and combine the results from the right; foldr_start_with_parser runs its initial parser after the items and rejects when that parser rejects.',
 ['programs', 'inputs'], 'an arbitrary item parser (and initial parser) on inputs of up to 4 characters with a free combining operation', WHY + 'fixed repetitions.',
 ['foldr.hpp', 'foldr1.hpp', 'foldr_start_with_parser.hpp', 'foldr_reject_incomplete.hpp', 'foldr_reject_incomplete1.hpp'], [('recursion building the result on the way back', 'foldr_start_with_parser.hpp')])
prop('C12', 'repeated and iterate collect every item in order',
 'repeated, repeated1, their reject_incomplete variants, repeated_one_of(1) return the results of all items in order and stop exactly where the item parser first rejects (or reject, as for foldl). iterate(_c) applies the parser exactly N times and rejects with the first rejection among them.',
 ['programs', 'inputs'], 'an arbitrary item parser on inputs of up to 3 characters, N from 0 to 32; runs of up to 29 items', WHY + 'fixed repetitions of a letter.',
 ['repeated.hpp', 'repeated1.hpp', 'repeated_reject_incomplete.hpp', 'repeated_reject_incomplete1.hpp', 'cpp98/repeated_one_of.hpp', 'cpp11/repeated_one_of.hpp', 'cpp98/repeated_one_of1.hpp', 'cpp11/repeated_one_of1.hpp', 'iterate.hpp', 'iterate_c.hpp', 'impl/iterate_impl.hpp', 'impl/iterate_impl_unchecked.hpp', 'impl/back_inserter.hpp'], [('foldl with back_inserter; iterate_impl countdown', 'repeated.hpp, impl/iterate_impl.hpp')])
prop('C13', 'Control combinators consume and reject as documented',
 'look_ahead, except and if_ never consume input; optional consumes only what its parser accepts; empty and entire_input accept only when no input is left, entire_input rejecting at the first unread character; return_ and fail neither consume nor inspect input; fail_at_first_char_expected accepts exactly a rejection at the first character. What their parser decides is passed on or inverted exactly as documented, and the next parser sees exactly the input that is left.',
 ['programs', 'inputs'], 'an arbitrary argument parser on inputs of up to 3 characters from any position, alone and followed or preceded by other parsers', WHY + 'fixed cases; the remaining input and position afterwards are seldom observed.',
 ['look_ahead.hpp', 'optional.hpp', 'except.hpp', 'if_.hpp', 'empty.hpp', 'entire_input.hpp', 'return_.hpp', 'fail.hpp', 'fail_at_first_char_expected.hpp'], [('is_error of the argument\'s outcome selects the outcome built from the original input', 'each header')])
prop('C14', 'Result and error transformations change only what they name',
 'transform, always(_c) change only the result of an acceptance; accept_when additionally rejects, at the start position, results its predicate refuses; transform_error, transform_error_message change only a rejection (the message; the position stays), change_error_message replaces the message and reports it at the start. Everything else - acceptance, remaining input, positions - passes through, also when transformations are stacked.',
 ['programs', 'inputs'], 'arbitrary argument parsers, predicates and functions on inputs of up to 3 characters; all stacked pairs', WHY + 'fixed cases; positions and remaining input are seldom observed.',
 ['transform.hpp', 'always.hpp', 'always_c.hpp', 'accept_when.hpp', 'transform_error.hpp', 'transform_error_message.hpp', 'change_error_message.hpp', 'unless_error.hpp'], [('unless_error / eval_if over is_error of the outcome', 'each header')])
prop('C15', 'keyword, token and spaces delimit text exactly',
 'keyword<s, r> accepts exactly the inputs starting with the characters of s, consumes exactly them and returns r, and otherwise rejects at the first differing character; token accepts what its parser accepts and additionally consumes all white space directly after it, returning the same result; spaces consumes the longest non-empty run of white space.',
 ['inputs', 'programs'], 'every keyword of up to 4 characters against every string of up to 4 characters, keywords of up to 32 characters against inputs differing in any one place; token of arbitrary parsers', WHY + 'one keyword, one separator.',
 ['keyword.hpp', 'token.hpp', 'space.hpp', 'spaces.hpp'], [('recursion over the keyword\'s characters; first_of<P, repeated<space>>', 'keyword.hpp, token.hpp')])
prop('C16', 'grammar parses what its EBNF rules say',
 'A parser built by grammar from textual rules accepts, for every input, exactly what the rules mean - literals in quotes (with \\n, \\r, \\t, \\\\, \\\' escapes), references to rules and named parsers, sequences, alternatives tried in order, and * and + repetitions - and returns the documented results after applying rule actions, wherever the input starts.',
 ['inputs', 'programs'], 'a set of grammars covering every construct and their nesting, each on all strings of up to 3 or 4 characters', WHY + 'a few grammars, two or three inputs each.',
 ['grammar.hpp'], [('the rule parser and the builders of literal, sequence, choice and repetition parsers', 'grammar.hpp')])
prop('C17', 'Outcomes carry their parts; build_parser stops on errors',
 'An acceptance gives back the result, remaining input and position it was made of, a rejection its message and position, and is_error is true exactly for rejections, whether or not the arguments are already evaluated. build_parser applied to an input the parser accepts from the start position is the parse result; on any other input it fails to compile, and the diagnostic names the line, the column and the message of the rejection.',
 ['inputs', 'programs'], 'arbitrary parsers on inputs of up to 3 characters, concrete parsers on all strings of up to 3 characters', WHY + 'a compile error cannot be expressed in the test-suite at all; build_parser has no tests beyond including its header.',
 ['accept.hpp', 'accept_tag.hpp', 'reject.hpp', 'fail_tag.hpp', 'is_error.hpp', 'get_result.hpp', 'get_remaining.hpp', 'get_position.hpp', 'get_message.hpp', 'build_parser.hpp'], [('static assertion in the class named PARSING_FAILED', 'build_parser.hpp'), ('tag dispatch of the accessors', 'accept_tag.hpp, fail_tag.hpp')])
prop('C18', 'No parser loses, invents or misplaces input',
 'Whatever parser is assembled from the library: an acceptance leaves a suffix of the input and its position is the start position advanced over exactly the consumed prefix; a rejection is reported at the start position advanced over some prefix of the input.',
 ['inputs', 'programs'], 'over 50 parsers covering every parser and combinator, each on all strings of up to 4 (thorough 5) characters, any start position', WHY + 'positions after acceptance are almost never observed.',
 ['one_char.hpp', 'accept.hpp', 'sequence.hpp', 'foldl.hpp', 'foldr_start_with_parser.hpp', 'token.hpp', 'keyword.hpp', 'look_ahead.hpp', 'optional.hpp'], [('every combinator threads get_remaining and get_position of the previous outcome', 'all combinators')])
prop('C19', 'Assembled parsers compute what their grammar defines',
 'Parsers assembled from the library as in its examples - calculators with precedence, parentheses and unary operators, binary and rational numbers, lists, assignments, identifiers, keywords, regular expressions - return for every input the value the grammar defines, or reject it at the position where the grammar is violated.',
 ['inputs', 'programs'], 'nine assembled parsers on all strings of up to 3 to 5 characters (thorough 4 to 8), and longer calculator inputs with arbitrary digits', WHY + 'the examples are only compiled.',
 ['foldl_reject_incomplete_start_with_parser.hpp', 'foldr_start_with_parser.hpp', 'middle_of.hpp', 'token.hpp', 'one_of.hpp', 'entire_input.hpp', 'int_.hpp', 'sequence.hpp', 'sequence_apply.hpp'], [('composition of the combinators', 'all combinators')])
prop('C20', 'Error texts and debug output name the error',
 'The text of an error (get_value) says what was expected and carries the exact character, index, line and column it was made of, also when errors are nested; debug_parsing_error prints the input and then either the remaining input of an acceptance or the line, the column and the text of the message of the rejection.',
 ['inputs', 'programs'], 'every error class over every character and every int; the messages and the report of 14 parsers on all strings of up to 3 (thorough 4) characters', 'The texts and debug_parsing_error are not tested at all; they are computed at run time from values found at compile time, so every input is a different program.',
 ['define_error.hpp', 'error/digit_expected.hpp', 'error/end_of_input_expected.hpp', 'error/expected_to_fail.hpp', 'error/index_out_of_range.hpp', 'error/letter_expected.hpp', 'error/literal_expected.hpp', 'error/none_of_the_expected_cases_found.hpp', 'error/unexpected_character.hpp', 'error/unexpected_end_of_input.hpp', 'error/unpaired.hpp', 'error/whitespace_expected.hpp', 'debug_parsing_error.hpp'],
 [('get_value of the error classes', 'error/*.hpp'), ('constructor printing the outcome', 'debug_parsing_error.hpp')])

prop('C21', 'Raised and lowered limits keep every count working',
 'With other values of BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, _ONE_OF_SIZE, _ONE_CHAR_EXCEPT_SIZE and _STRING_SIZE than the defaults, sequence, sequence_applyN, nth_of(_c), first_of, last_of, one_of(_c), repeated_one_of(1), one_char_except(_c) and string work for every count up to the limit exactly as they do by default: same results, same remaining input, same positions, same errors.',
 ['programs', 'inputs'], 'three sets of limits, every count up to each limit, an arbitrary item in each place, strings of every content up to the limit', WHY + 'the tests are built with the default limits only.',
 ['cpp98/sequence.hpp', 'cpp98/impl/sequence.hpp', 'cpp98/nth_of_c.hpp', 'cpp98/impl/nth_of_c.hpp', 'cpp98/one_of.hpp', 'cpp98/one_of_c.hpp', 'cpp98/one_char_except_c.hpp', 'cpp98/impl/is_none.hpp', 'cpp98/string.hpp', 'sequence_apply.hpp'], [('preprocessor repetition up to the limit', 'cpp98/*.hpp')])
prop('C22', 'Documented equivalences between parsers hold',
 'Expressions the reference defines by one another - for example foldl1<P,T,F> and last_of<look_ahead<P>, foldl<P,T,F>>, always and last_of with return_, keyword and a sequence of literals, iterate and sequence, the reject_incomplete variants and fail_at_first_char_expected, lit_c and lit, int_ and a fold of digit_val - have the same outcome on every input from every position, and evaluating a parser (P::type) gives the same parser.',
 ['programs', 'inputs'], 'some 80 pairs of expressions with arbitrary argument parsers on inputs of up to 3 (thorough 4) characters or arbitrary parameter characters on all strings of up to 4', WHY + 'each side is tested on its own examples; nothing compares the two.',
 ['foldl1.hpp', 'foldr1.hpp', 'foldl_reject_incomplete.hpp', 'foldr_reject_incomplete.hpp', 'foldl_reject_incomplete_start_with_parser.hpp', 'always.hpp', 'keyword.hpp', 'iterate_c.hpp', 'lit_c.hpp', 'range_c.hpp', 'int_.hpp', 'digit_val.hpp', 'empty.hpp', 'entire_input.hpp', 'optional.hpp', 'repeated.hpp'], [('parsers defined through others', 'each header')])
prop('C23', 'Combinators compose',
 'What a combinator does depends on its argument parsers only through what they do: nesting any combinator in any other, or using the same parser in several places of one, has on every input and from every position exactly the outcome obtained by composing the documented behaviours - same acceptance or rejection, result, remaining input, position and message. No combination of two combinators behaves specially.',
 ['programs', 'inputs'], 'every ordered pair of 43 combinators (repetitions only over parsers that consume), with one arbitrary parser in all places, on inputs of 1 and 2 characters from any position', WHY + 'each combinator over plain character parsers; combinations of combinators are hardly tested at all.',
 ['repeated.hpp', 'foldl.hpp', 'foldr.hpp', 'optional.hpp', 'look_ahead.hpp', 'except.hpp', 'if_.hpp', 'entire_input.hpp', 'token.hpp', 'iterate_c.hpp', 'transform.hpp', 'always.hpp', 'accept_when.hpp', 'transform_error.hpp', 'transform_error_message.hpp', 'change_error_message.hpp', 'middle_of.hpp', 'one_of.hpp', 'sequence.hpp', 'foldl_start_with_parser.hpp', 'foldr_start_with_parser.hpp', 'fail_at_first_char_expected.hpp'], [('every combinator applies its argument parsers through apply<S, Pos> and looks at the outcome only', 'all combinators')])

TECH = 'symbolic execution of the real templates (clang AST) with z3; each path compared with a reference semantics by an SMT query; counterexamples replayed with g++'
LN = ('Bounded: within the stated bounds every value of every symbolic character, position and parser outcome is decided by the solver, for the C++98, C++11 and C++14 code. '
      'Trusted: the engine\'s model of template instantiation (cross-checked by replaying sampled paths of every run with g++) and the reference semantics; a violation is reported only if g++ reproduces it.')
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': ['apply<S, Pos>::type of the parser, through is_error, get_result, get_remaining, get_position, get_message'], 'hook_needed': None}}) + '\n')
            for x in p['files']:
                if not os.path.exists('/repo/' + x): print('missing', p['id'], x)
    m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': [
        {'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
         'technique': TECH, 'level': 'model_checking', 'level_note': LN} for p in P if p['claim']],
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claim']],
        'notes': 'No hooks in /repo. known_findings.json lists the repaired defects and one recorded finding (C01).'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
