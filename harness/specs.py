"""What each check runs: harness entries, bounds, tiers. See DESIGN.md."""
COMMON_ASSUMPTIONS = [
 'Target: x86-64 Linux, C++11, libstdc++ 13 headers, clang 18 front end (-O1, no passes); the native replays use g++ 13.',
 'The parts of libstdc++/libc that exist only in the library (allocation, string-to-number conversion, locale facets, standard stream objects, basic_filebuf, iostream initialisation, exception runtime) are models in rt/rt.cpp and engine/exec.cpp; header-only library code is executed as it is. A sample of explored paths is run against the real build on every run and has to agree.',
 'Memory allocation never fails. Integer and pointer behaviour is that of the IR (two\'s complement wrap-around is not reported as an error).',
 'Nothing is claimed outside the bounds given per run.',
]
NOTE = 'Every value, length and choice within the bounds listed in the evidence file is decided by the solver on the real code; nothing is claimed outside them. Trusted: clang front end, the symbolic executor, Z3, and the models of libstdc++ library-side functions in rt/rt.cpp.'
NA = {
 'C40': 'Type traits have no run-time code: their answers are compile-time constants fixed for each type, so there is no execution to make symbolic and no input for a solver to range over; "every type" is not a quantifier an SMT solver can take here.',
}
def B(q, t=None): return {'quick': q, 'thorough': t or q}
ALL32 = 'all 2^32 code point values'
def run(src, entry, covers, bounds, q=None, t=None, qt=None, tt=None, **kw):
    """q/t: macro definitions of the tiers; qt/tt: further engine settings"""
    r = dict(src=src, entry=entry, covers=covers, bounds=bounds if isinstance(bounds, dict) else B(bounds), defs=dict(q or {}))
    r['quick'] = dict(qt or {})
    th = dict(time=780)
    th.update(tt or {})
    if t is not None: th['defs'] = {**(q or {}), **t}
    r['thorough'] = th
    r.update(kw)
    return r

SPECS = {}
SPECS['C01'] = dict(runs=[
   run('h_char.cpp', 'char_roundtrip', ['built'], 'all Unicode scalar values except 0'),
   run('h_char.cpp', 'char_bytes', ['rejected', 'accepted'], 'all byte sequences of up to 5 bytes'),
   run('h_char.cpp', 'char_ascii', ['ascii'], 'all non-zero ASCII bytes')])
SPECS['C02'] = dict(runs=[run('h_char.cpp', 'char_order', ['compared', 'different lengths'], 'all pairs of non-zero Unicode scalar values')])
SPECS['C03'] = dict(runs=[run('h_string.cpp', 'str_text', ['rejected', 'accepted'], B('all byte strings of up to 4 non-zero bytes, through 6 ways of building or extending a string', 'the same with up to 5 bytes'), dict(NMAX=4), dict(NMAX=5)),
   run('h_string.cpp', 'str_text_long', ['accepted', 'rejected'], B('one arbitrary character of 1 to 4 bytes between fixed runs of 0, 7, 15, 16, 31 or 33 mixed characters each', 'fixed runs of 64 to 257 characters too'), dict(LONGS=6), dict(LONGS=11))])
LEN12 = 'one- and two-byte characters'
SPECS['C04'] = dict(runs=[
   *[run('h_string.cpp', e, ['searched'], 'all ASCII texts of up to 5 characters and needles of up to 3, every start position 0..length+2 and the default', dict(NMAX=5, MMAX=3)) for e in ('str_find', 'str_rfind', 'str_contains', 'str_findif')],
   *[run('h_string.cpp', e, ['searched'], 'all texts of up to 2 characters of 1 to 3 bytes (findif: 3 of 1 to 4 bytes), needles of 1, every start position', dict(NMAX=3 if e == 'str_findif' else 2, MMAX=1, LENS=15 if e == 'str_findif' else 7), tag='multi') for e in ('str_find', 'str_rfind', 'str_contains', 'str_findif')],
   run('h_string.cpp', 'str_find_long', ['searched'], 'repetitive texts of 3 to 13 and needles of 1 to 7 characters with one or two arbitrary characters of 1 or 2 bytes among them; also StartsWith and EndsWith'),
   *[run('h_string.cpp', e, ['searched'], 'all ASCII texts of up to 6 characters, needles of up to 4', dict(NMAX=6, MMAX=4), tag='long', thorough_only=True) for e in ('str_find', 'str_rfind', 'str_contains')]])
SPECS['C05'] = dict(runs=[
   run('h_string.cpp', 'str_edit', ['out of range', 'edited'], B('two ASCII strings of up to 2 and 1 characters, every history of 2 of 16 operations, every position 0..length+1 and count 0..2', 'the same, 3 operations'), dict(OPS=2), dict(OPS=3)),
   run('h_string.cpp', 'str_edit', ['out of range', 'edited'], B('one operation on strings of one- and two-byte characters', 'two such operations'), dict(OPS=1, LENS=3), dict(OPS=2), tag='multi'),
   run('h_string.cpp', 'str_edit_long', ['edited'], B('one of 9 operations on a fixed text of 0 to 33 characters and one of 1, 10 or 19 that begins with an arbitrary character, counts up to 200', 'texts of up to 257 characters'), dict(LONGS=6), dict(LONGS=11)),
   run('h_string.cpp', 'str_build', ['built'], 'every character of 1..4 bytes, counts 0..3')])
SPECS['C06'] = dict(runs=[run('h_string.cpp', 'str_order', ['compared'], B('all pairs of strings of up to 2 characters of 1 to 4 bytes', 'up to 3 characters of 1 to 4 bytes'), dict(LENS=15), dict(MMAX=3)),
   run('h_string.cpp', 'str_order_long', ['compared'], B('a common part of 0 to 33 characters, then one arbitrary character of 1 to 4 bytes each, then up to two more', 'a common part of up to 257 characters'), dict(LONGS=6), dict(LONGS=11))])
SPECS['C07'] = dict(runs=[
   run('h_case.cpp', 'cls_space', ['space', 'not space'], ALL32),
   run('h_case.cpp', 'cls_digit', ['digit', 'not digit'], ALL32),
   run('h_case.cpp', 'cls_case', ['upper', 'lower', 'neither'], ALL32)])
SPECS['C08'] = dict(runs=[
   run('h_case.cpp', 'case_upper', ['mapped', 'identity'], ALL32),
   run('h_case.cpp', 'case_lower', ['mapped', 'identity'], ALL32),
   run('h_case.cpp', 'case_classes', ['upper', 'lower'], ALL32),
   run('h_case.cpp', 'case_string', ['mapped'], B('all strings of up to 1 character of up to 3 bytes', 'up to 2 characters of up to 2 bytes'), dict(NMAX=1), dict(NMAX=2, LENS=3))])
SPECS['C09'] = dict(runs=[
   run('h_format.cpp', 'fmt_args', ['formatted', 'missing argument'], B('formats of up to 3 segments (any text byte, {{, }}, {}, {N}, {N:>3}, {:.<3}) with 0..3 arguments of 1 or 2 arbitrary ASCII characters', 'up to 4 segments'), dict(SEGS=3), dict(SEGS=4)),
   run('h_format.cpp', 'fmt_int', ['formatted'], 'all 8- and 16-bit integers through int, long long and unsigned; both booleans'),
   run('h_format.cpp', 'fmt_many', ['formatted', 'missing argument'], B('twelve arguments of 0 to 27 characters, half of them with an arbitrary one; fixed text, 0 to 10 automatic placeholders and then two with any index 8..14, 120 or automatic, with or without a layout', 'every index 0..14'), {}, dict(DEEP=1)),
   run('h_format.cpp', 'fmt_kinds', ['formatted'], 'seven integer types within 2 of nine limits, booleans, C text, strings and objects with str(), ToString() or to_string() with an arbitrary character'),
   run('h_format.cpp', 'fmt_int32', ['formatted'], 'all 32-bit integers', thorough_only=True)])
SPECS['C10'] = dict(runs=[
   run('h_format.cpp', 'fmt_layout', ['padded', 'no padding'], B('texts of up to 2 characters of 1 or 2 bytes, every fill character, alignment, width 0..5, type', 'texts of up to 3 characters, width 0..11'), {}, dict(NMAX=3, WMAX=11)),
   run('h_format.cpp', 'fmt_float', ['zero extended', 'cut', 'as it was'], B('all decimal texts of 1-2 integer and 0-2 fraction digits with sign, precision absent or 0..3, width 0, 4, 8', '0-4 fraction digits, precision 0..5'), dict(FRAC=2), dict(FRAC=4)),
   run('h_format.cpp', 'fmt_layout_long', ['padded', 'no padding'], B('texts of 1, 21 or 131 characters, numbers of 1 or 10 integer and 0, 11 or 22 arbitrary fraction digits; width 0, 10, 19, 100, 256, precision 0, 10, 17', '6 sizes, 12 widths up to 1000, 7 precisions up to 100'), {}, dict(DEEP=1))])
SPECS['C11'] = dict(runs=[
   run('h_format.cpp', 'fmt_total', ['thrown', 'formatted'], B('all formats of up to 3 symbols over { } : 0 1 9 . < ^ f x and a non-ASCII digit, 0..2 arguments', 'up to 5 symbols'), dict(FLEN=3), dict(FLEN=5)),
   run('h_format.cpp', 'fmt_bytes', ['thrown', 'formatted'], B('all formats of up to 2 arbitrary bytes, 0..2 arguments', 'up to 3 bytes'), dict(BLEN=2), dict(BLEN=3)),
   run('h_format.cpp', 'fmt_total_long', ['thrown', 'formatted'], B('eleven beginnings (indexes, widths and precisions of 20 to 32 digits among them), up to 2 symbols over { } : 1 < . and six endings, alone or after 40 characters, 0 or 2 arguments', 'up to 3 symbols'), dict(KMAX=2), dict(KMAX=3))])
SPECS['C12'] = dict(runs=[
   run('h_text.cpp', 'txt_split', ['several fields', 'one field at most'], B('all texts of up to 3 bytes, every delimiter byte', 'up to 5 bytes'), {}, dict(NMAX=5)),
   run('h_text.cpp', 'txt_repeat', ['repeated'], B('all texts of up to 3 bytes, counts 0..5', 'up to 5 bytes'), {}, dict(NMAX=5)),
   run('h_text.cpp', 'txt_spaces', ['no non-space', 'one', 'several'], B('all texts of up to 2 characters of 1 to 3 bytes', 'up to 3 characters'), dict(NMAX=2), dict(NMAX=3)),
   run('h_text.cpp', 'txt_number', ['number', 'no number'], 'all texts of up to 3 characters of 1 to 3 bytes'),
   run('h_text.cpp', 'txt_split_long', ['several fields', 'one field at most'], 'texts of up to 301 fields of one arbitrary character, or three fields of up to 300; every delimiter byte'),
   run('h_text.cpp', 'txt_repeat_long', ['repeated'], 'texts of 2, 22 and 42 bytes with an arbitrary one, counts up to 257'),
   run('h_text.cpp', 'txt_spaces_long', ['searched'], B('two arbitrary characters of 1 to 3 bytes with 0 or 70 spaces before and after them, 0 or 70 spaces or digits between', 'runs of 1 and 16 too'), {}, dict(DEEP=1))])
SPECS['C13'] = dict(runs=[
   run('h_text.cpp', 'esc_text', ['replaced', 'unchanged'], B('all ASCII texts of up to 3 characters', 'up to 4 characters'), dict(LENS=1), dict(NMAX=4)),
   run('h_text.cpp', 'esc_text', ['replaced', 'unchanged'], B('all texts of up to 2 characters of 1 to 4 bytes', 'up to 3 characters of 1 to 4 bytes'), dict(LENS=15, NMAX=2), dict(NMAX=3), tag='multi'),
   run('h_text.cpp', 'esc_unicode', ['replaced', 'unchanged'], '\\u followed by 0..4 arbitrary ASCII characters, with or without text around it'),
   run('h_text.cpp', 'esc_long', ['replaced', 'unchanged'], B('an arbitrary ASCII character between two of six escapes (valid, invalid, cut), alone or in long text', 'ten escapes'), {}, dict(DEEP=1))])
SPECS['C14'] = dict(runs=[
   run('h_text.cpp', 'sb_history', ['built'], B('every history of up to 2 operations on two builders, pieces of up to 2 ASCII characters', 'up to 3 operations'), dict(OPS=2), dict(OPS=3)),
   run('h_text.cpp', 'sb_long', ['built'], '1, 17 or 60 appends of one of five kinds, a piece of 1 or 2 arbitrary ASCII characters, a copy and a move on the way; the four ways of MakeText')])
SPECS['C15'] = dict(runs=[
   run('h_text.cpp', 'kmp_search', ['found', 'not found'], B('all patterns of up to 3 and texts of up to 5 bytes', 'patterns of up to 4 and texts of up to 7 bytes'), dict(NMAX=5), dict(NMAX=7, PMAX=4)),
   run('h_text.cpp', 'kmp_long', ['searched'], 'repetitive patterns of up to 47 and texts of up to 58 bytes, each with one arbitrary byte'),
   run('h_text.cpp', 'kmp_borders', ['searched'], 'seven patterns of 5 to 11 characters with several borders, texts made of pieces of them and two arbitrary bytes')])
RUN = 'one arbitrary digit, a run of %s nines, zeros or fives and another arbitrary digit'
SPECS['C16'] = dict(runs=[
   run('h_bigint.cpp', 'big_add', ['added'], B('all pairs of signed integers of up to 3 digits', 'up to 4 digits'), {}, dict(DA=4, DB=4)),
   run('h_bigint.cpp', 'big_sub', ['subtracted'], B('all pairs of signed integers of up to 3 digits', 'up to 4 digits'), {}, dict(DA=4, DB=4)),
   run('h_bigint.cpp', 'big_compare', ['compared'], B('all pairs of signed integers of up to 3 digits', 'up to 4 digits'), {}, dict(DA=4, DB=4)),
   run('h_bigint.cpp', 'big_sum_long', ['summed'], B('sums and differences of signed numbers of ' + RUN % '0, 8 or 18', 'runs of up to 38'), {}, dict(DEEP=1)),
   run('h_bigint.cpp', 'big_compare_long', ['compared'], B('all pairs of signed numbers of ' + RUN % '0, 8 or 18', 'runs of up to 38'), {}, dict(DEEP=1))])
SPECS['C17'] = dict(jobs=8, runs=[
   run('h_bigint.cpp', 'big_mul', ['multiplied'], B('all pairs of signed integers of up to 2 digits', '3 by 2 digits'), dict(DA=2, DB=2), dict(DA=3)),
   run('h_bigint.cpp', 'big_div', ['divided', 'by zero'], B('all pairs of signed integers of up to 2 digits', '3 by 2 digits'), dict(DA=2, DB=2), dict(DA=3), dict(time=800), dict(time=860)),
   run('h_bigint.cpp', 'big_pow', ['raised'], B('every one-digit base, exponents 0..3 and every negative exponent', 'every base of up to 2 digits'), dict(DA=1), dict(DA=2)),
   run('h_bigint.cpp', 'big_sqrt', ['rooted', 'negative'], B('all integers of up to 2 digits', 'up to 3 digits'), dict(DA=2), dict(DA=3)),
   run('h_bigint.cpp', 'big_mul_long', ['multiplied'], B('products of signed numbers of 1, a run of 0, 8 or 18 nines, zeros or fives and an arbitrary digit, either order', 'runs of up to 38, the first digit of one of them arbitrary too'), {}, dict(DEEP=1)),
   run('h_bigint.cpp', 'big_div_long', ['divided'], B('such numbers with runs of 0 or 18 divided by such numbers or by an arbitrary signed digit', 'runs of 0, 8, 9 or 18'), {}, dict(DEEP=1)),
   run('h_bigint.cpp', 'big_pow_long', ['raised'], B('bases of an arbitrary digit after nothing, -, 1, -1 or 99, exponents 17 and 6', 'exponents 6 to 64'), {}, dict(DEEP=1)),
   run('h_bigint.cpp', 'big_sqrt_long', ['rooted'], B('99 and 9999999 followed by one or two arbitrary digits', 'numbers of up to 19 digits'), {}, dict(DEEP=1))])
SPECS['C18'] = dict(jobs=8, runs=[
   run('h_bigint.cpp', 'big_text', ['accepted', 'rejected'], B('all texts of up to 3 characters of 1 or 2 bytes', 'up to 4 characters'), {}, dict(NMAX=4)),
   run('h_bigint.cpp', 'big_digits', ['printed'], B('all signed runs of up to 3 digits', 'up to 4 digits'), {}, dict(DA=4)),
   run('h_bigint.cpp', 'big_native', ['converted'], 'all 16-bit signed and unsigned values'),
   run('h_bigint.cpp', 'big_edges', ['converted'], B('five windows of 256 consecutive 64-bit values (at 2^31, below and above 2^63, below 2^64, around 10^19), signed, negated and unsigned', 'fourteen such windows'), dict(ANCHORS=5), dict(ANCHORS=14)),
   run('h_bigint.cpp', 'big_text_long', ['accepted', 'rejected'], 'texts of 9 to 100 digits with an arbitrary ASCII character at the start, in the middle or at the end, with sign and up to 40 leading zeros, three ways of building')])
DEC = 'signed decimals of up to %s integer and %s fraction digits (leading and trailing zeros included)'
SPECS['C19'] = dict(jobs=8, runs=[
   run('h_bigfloat.cpp', 'bf_text', ['printed'], B('all ' + DEC % (2, 3), 'all ' + DEC % (3, 4)), dict(DF=3), dict(DI=3, DF=4)),
   run('h_bigfloat.cpp', 'bf_reject', ['accepted', 'rejected'], 'all texts of up to 3 characters out of digits, + - . space x'),
   run('h_bigfloat.cpp', 'bf_add', ['added'], B('all pairs of ' + DEC % (1, 1), 'all pairs of ' + DEC % (2, 2)), dict(DI=1, DF=1), dict(DI=2, DF=2)),
   run('h_bigfloat.cpp', 'bf_add', ['added'], 'a ' + DEC % (1, 2) + ' and one of no integer digit and up to 2 fraction digits', dict(DI=1, DF=2, BI=0), tag='fractions'),
   run('h_bigfloat.cpp', 'bf_compare', ['compared'], B('all pairs of ' + DEC % (1, 2), 'all pairs of ' + DEC % (2, 2)), dict(DI=1, DF=2), dict(DI=2)),
   run('h_bigfloat.cpp', 'bf_multiply', ['multiplied'], B('all pairs of ' + DEC % (1, 1), 'all pairs of ' + DEC % (1, 2)), dict(DI=1, DF=1), dict(DF=2)),
   run('h_bigfloat.cpp', 'bf_divide', ['divided', 'by zero'], B(DEC % (1, 1) + ' divided by one-digit integers', 'all pairs of ' + DEC % (1, 1)), dict(DI=1, DF=1, BF=0), dict(BF=1)),
   run('h_bigfloat.cpp', 'bf_divide', ['divided', 'by zero'], DEC % (1, 1) + ' divided by one-digit fractions', dict(DI=1, DF=1, BI=0), tag='fraction'),
   run('h_bigfloat.cpp', 'bf_pow', ['raised'], 'every base of the ' + DEC % (1, 1) + ', exponents 0..3 and every negative one', dict(DI=1, DF=1)),
   run('h_bigfloat.cpp', 'bf_pow_far', ['raised'], B('every exponent from 0 to 39 of 1.5, -0.2, 10, -1.0, .000001 and 0, and up to 9 of two bases with one arbitrary digit', 'every exponent from 0 to 69'), dict(SIZES=40), dict(SIZES=70)),
   run('h_bigfloat.cpp', 'bf_sqrt', ['rooted', 'negative'], B('the root of every ' + DEC % (1, 1), 'the root of every ' + DEC % (1, 2)), dict(DI=1, DF=1), dict(DF=2)),
   run('h_bigfloat.cpp', 'bf_sqrt_long', ['rooted', 'exact'], B('roots of three forms of numbers of 4 to 7 digits, one of them arbitrary; of four squares', 'six forms'), {}, dict(DEEP=1)),
   run('h_bigfloat.cpp', 'bf_sum_long', ['summed'], B('sums and differences of two signed decimals with a leading digit and a last fraction digit, runs of 0 or 19 nines or zeros before and after the point; two or three arbitrary digits', 'four arbitrary digits, runs of 8 too'), {}, dict(DEEP=1)),
   run('h_bigfloat.cpp', 'bf_compare_long', ['compared'], B('pairs of such decimals', 'four arbitrary digits, runs of 8 too'), {}, dict(DEEP=1)),
   run('h_bigfloat.cpp', 'bf_mul_long', ['multiplied'], B('products of such a decimal and one of five others', 'products of two such decimals, runs of 8 too'), {}, dict(DEEP=1)),
   run('h_bigfloat.cpp', 'bf_divide_long', ['divided'], B('such decimals divided by 7, -3, 0.7 and 125.5', 'and by two of 11 digits'), {}, dict(DEEP=1)),
   run('h_bigfloat.cpp', 'bf_text_long', ['printed'], B('such decimals with two arbitrary digits', 'runs of 8 too'), {}, dict(DEEP=1)),
   run('h_bigfloat.cpp', 'bf_native', ['converted'], 'eight floating values')])
JSHAPES = 'at 8 kinds of place inside a document, followed by 4 different ends'
SPECS['C20'] = dict(runs=[
   run('h_json.cpp', 'json_short', ['accepted', 'rejected'], B('all texts of up to 3 characters of 1 or 2 bytes', 'up to 4 characters'), dict(NMAX=3, LENS=3), dict(NMAX=4)),
   run('h_json.cpp', 'json_inside', ['accepted', 'rejected'], B('up to 2 arbitrary characters of 1 or 2 bytes ' + JSHAPES, 'up to 3 characters'), dict(NMAX=2, LENS=3), dict(NMAX=3)),
   run('h_json.cpp', 'json_wide', ['accepted', 'rejected'], B('objects and arrays of 0, 9 or 33 members or elements of six kinds, then an arbitrary character of 1 or 2 bytes as a value, then 0 or 10 more', 'up to 70'), {}, dict(DEEP=1)),
   run('h_json.cpp', 'json_nest', ['accepted', 'rejected'], B('documents nested 512, 513 and 601 deep', 'and 511 deep'), {}, dict(DEEP=1))])
SPECS['C21'] = dict(runs=[
   run('h_json.cpp', 'json_tokens', ['accepted', 'rejected'], B('{ followed by up to 5 tokens out of { } [ ] , : space 1 "s" "k": null, and }', 'up to 6 tokens'), dict(NMAX=5), dict(NMAX=6)),
   run('h_json.cpp', 'json_inside', ['accepted', 'rejected'], B('up to 2 arbitrary ASCII characters ' + JSHAPES, 'up to 3 characters'), dict(NMAX=2, LENS=1), dict(NMAX=3)),
   run('h_json.cpp', 'json_after', ['accepted', 'rejected'], 'a key of one character of 1..4 bytes followed by literals, near-literals, numbers, strings and arrays'),
   run('h_json.cpp', 'json_deep', ['accepted', 'rejected'], B('arrays, objects or both in turn nested 1, 11 or 40 deep around one arbitrary ASCII character, closed properly, once too little, once too often or wrongly', 'up to 100 deep'), {}, dict(DEEP=1))])
SPECS['C22'] = dict(runs=[
   run('h_json.cpp', 'json_string', ['accepted', 'rejected'], B('keys and values of up to 3 characters of 1 or 2 bytes', 'up to 4 characters'), dict(NMAX=3, LENS=3), dict(NMAX=4)),
   run('h_json.cpp', 'json_escape', ['accepted', 'rejected'], B('\\u with four arbitrary ASCII characters, alone, before \\uDE42 and after \\uD83D', 'before \\uD and three arbitrary ones, too'), dict(NMAX=3), dict(NMAX=4)),
   run('h_json.cpp', 'json_unicode', ['accepted', 'rejected'], '\\u with two arbitrary ASCII characters among its digits (three selections), and surrogate pairs with one arbitrary digit each'),
   run('h_json.cpp', 'json_text_long', ['accepted', 'rejected'], B('keys and values of 0 to 300 mixed characters with one of six escapes and an arbitrary character of 1 to 4 bytes in between; as much white space of five kinds around them', 'up to 840 characters'), {}, dict(DEEP=1))])
SPECS['C23'] = dict(runs=[
   run('h_json.cpp', 'json_number', ['accepted', 'rejected'], B('all tokens of up to 3 characters out of digits, + - . e E x', 'up to 4 characters'), dict(NMAX=3), dict(NMAX=4)),
   run('h_json.cpp', 'json_integer', ['accepted'], B('all integers of up to 6 digits with or without minus', 'up to 9 digits'), dict(NMAX=6), dict(NMAX=9)),
   run('h_json.cpp', 'json_after', ['accepted', 'rejected'], 'literals after a key of one character of 1..4 bytes'),
   run('h_json.cpp', 'json_limits', ['read', 'too large'], 'seven beginnings (around 2^31, 2^32, 2^53, 2^63, 2^64 and 10^24, and with zeros in front) and two arbitrary digits, with or without minus'),
   run('h_json.cpp', 'json_floats', ['read'], 'sixteen floating numbers at three places')])
SPECS['C24'] = dict(runs=[
   run('h_jsonval.cpp', 'jv_scalar', ['read back'], 'a member that is a string of up to 2 characters of 1 or 2 bytes, a 16-bit or one of four large integers, a boolean, null or one of 25 floats; four layouts'),
   run('h_jsonval.cpp', 'jv_key', ['read back'], 'every key of up to 2 characters of 1 or 2 bytes; four layouts'),
   run('h_jsonval.cpp', 'jv_tree', ['read back'], 'up to 2 members; arrays and objects nested up to three deep with arbitrary scalars; four layouts'),
   run('h_jsonval.cpp', 'jv_stream', ['read back', 'no document'], 'a member that is a string of up to 2 characters of 1 to 4 bytes, written to a stream and read from a stream and in four ways from a file; a cut text, an empty and a missing file'),
   run('h_jsonval.cpp', 'jv_big_tree', ['read back'], B('1 or 12 members, one of them an object or array of 20 values or a chain of 20 nested ones, a text of 100 characters with an arbitrary one of 1 to 4 bytes; two layouts', 'sizes 1, 6, 20 and 45, 300 characters, four layouts'), {}, dict(DEEP=1))])
SPECS['C25'] = dict(runs=[
   run('h_jsonval.cpp', 'jv_history', ['histories'], B('every history of 3 of 11 operations on two values', '4 operations'), dict(OPS=3), dict(OPS=4)),
   run('h_jsonval.cpp', 'jv_document', ['histories'], B('every history of 3 of 7 operations on two documents', '4 operations'), dict(OPS=3), dict(OPS=4)),
   run('h_jsonval.cpp', 'jv_big_history', ['histories'], B('an object or array of 20 values or a chain of 20 nested ones and a chain of four, every history of 2 of 9 operations (nine members, nine elements, copies from and into an own descendant)', 'sizes 1, 6, 20 and 45'), dict(OPS=2), dict(OPS=2, DEEP=1))])
SPECS['C26'] = dict(runs=[run('h_jsonval.cpp', 'jv_access', ['member', 'no member', 'element', 'no element'], 'every kind of value with up to 2 members or elements of arbitrary content, every key of up to 1 ASCII character, every 64-bit index')])
SPECS['C27'] = dict(runs=[
   run('h_expected.cpp', 'ex_unwrap', ['success', 'error'], 'every state and 32-bit payload'),
   run('h_expected.cpp', 'ex_combine', ['success', 'error'], 'every state, 32-bit payload and function result, 15 combinators'),
   run('h_expected.cpp', 'ex_history', ['histories'], 'every history of 2 of 7 operations on two objects', dict(OPS=2))])
SPECS['C28'] = dict(runs=[
   run('h_expected.cpp', 'ex_history', ['histories'], B('every history of 3 of 7 operations on two objects', '5 operations'), dict(OPS=3), dict(OPS=5)),
   run('h_expected.cpp', 'ex_faults', ['histories', 'a copy threw'], B('every history of 2 operations with a throw at every copy position', '3 operations'), dict(OPS=2), dict(OPS=3)),
   run('h_expected.cpp', 'ex_strings', ['assigned'], 'string payloads with an arbitrary character, 3 operations')],
   assumptions=['Payload moves do not throw.'])
SPECS['C29'] = dict(runs=[run('h_memory.cpp', 'mem_shared', ['histories'], B('every history of 3 operations out of 9 kinds on three pointers from 4 starting situations, objects linked to others without cycles', 'the same, 4 operations, as far as the time allows'), dict(OPS=3), dict(OPS=4)),
   run('h_memory.cpp', 'mem_many', ['given up'], B('3 or 257 owners made in four ways, as many observers or none, given up in two orders with one of three kept to the last', '65536 owners too'), {}, dict(DEEP=1))])
SPECS['C30'] = dict(runs=[
   run('h_memory.cpp', 'mem_unique', ['histories'], B('every history of 4 operations out of 10 kinds on two pointers', '5 operations'), dict(OPS=4), dict(OPS=5)),
   run('h_memory.cpp', 'mem_raw', ['histories'], B('every history of 4 operations out of 6 kinds on two wrappers', '5 operations'), dict(OPS=4), dict(OPS=5))])
SPECS['C31'] = dict(runs=[run('h_memory.cpp', 'mem_weak', ['histories'], B('every history of 3 operations on two owners and two observers', 'the same, 4 operations, as far as the time allows'), dict(OPS=3), dict(OPS=4)),
   run('h_memory.cpp', 'mem_many', ['given up'], '3 or 257 owners made in four ways, as many observers or none, given up in two orders with one of three kept to the last')])
SPECS['C32'] = dict(runs=[
   run('h_threads.cpp', 'thr_shared', ['schedules'], B('2 threads and the main thread, every pair of scripts of 2 operations, every schedule at atomic-operation granularity', '3 threads with 1 operation each'), dict(OPS=2), dict(OPS=1, THREADS=3), threads=True),
   run('h_threads.cpp', 'thr_shared', ['schedules'], 'the same with observers, scripts of 1 operation out of 8', dict(OPS=1, WEAK=1), threads=True, tag='weak')],
   assumptions=['Interleavings are sequentially consistent; data races are judged by happens-before under the C++11 memory orders of the atomic operations.', 'std::atomic is the only synchronisation modelled.'])
SPECS['C33'] = dict(runs=[run('h_misc.cpp', 'cmp_all', ['compared'], 'all values of all 100 pairs of the ten integer types from signed char to unsigned long long')])
SPECS['C34'] = dict(runs=[
   run('h_misc.cpp', 'rnd_within', ['drawn'], '16-, 32- and 64-bit signed and unsigned types, every range of width up to 255 at any position, every generator output, at most 2 draws'),
   run('h_misc.cpp', 'rnd_wide', ['drawn'], 'seventeen widths from 256 to 2^64-1 that fit the type, at the start, in the middle and at the end of it, every generator output, at most 2 draws'),
   run('h_misc.cpp', 'rnd_reach', ['reached'], 'ranges of 1..6 values at five positions for six types, generator outputs at the middle of equal parts and around one half'),
   run('h_misc.cpp', 'rnd_real', ['drawn'], 'pairs out of eight float and double bounds, five canonical generator values'),
   run('h_misc.cpp', 'rnd_boolean', ['refused', 'drawn'], 'sixteen percentages including the neighbours of 0 and 1, infinities and not-a-number, five canonical generator values')],
   assumptions=['The bit generator is replaced by one that returns arbitrary values (real-valued and boolean draws: five canonical values).'])
SPECS['C35'] = dict(runs=[
   run('h_misc.cpp', 'map_lists', ['listed'], 'all maps of up to 3 insertions of 8-bit keys and 32-bit values'),
   run('h_misc.cpp', 'map_multi', ['listed'], 'all multimaps of up to 3 entries'),
   run('h_misc.cpp', 'map_many', ['listed'], 'maps of 40 known entries and up to one arbitrary one, stored and replaced')])
SPECS['C36'] = dict(runs=[
   run('h_io.cpp', 'file_history', ['histories'], B('every history of 3 of 11 operations on a file object, absent or with initial content of up to 2 arbitrary ASCII bytes, writes of up to 2 bytes, positions 0..3', '4 operations'), dict(OPS=3), dict(OPS=4)),
   run('h_io.cpp', 'file_history', ['histories'], B('every history of 2 operations with text of one- and two-byte characters', '3 operations'), dict(OPS=2, LENS=3), dict(OPS=3), tag='multi'),
   run('h_io.cpp', 'file_write', ['written'], 'texts of up to 2 characters of 1..4 bytes through 4 functions and 6 kinds of argument'),
   run('h_io.cpp', 'file_open', ['opened'], 'no arbitrary input: names, literals, formats'),
   run('h_io.cpp', 'file_long', ['there before', 'written'], B('files of 1 or 12 lines of 0 or 80 mixed characters with an arbitrary one of 1 to 4 bytes, written in three ways or there before; read whole and line by line while a second handle appends, erased and written again', 'up to 50 lines, up to 300 characters'), {}, dict(DEEP=1))],
   assumptions=['The file system never fails and nothing else changes the file; std::basic_filebuf is the model in rt/rt.cpp (unbuffered, one file position for reading and writing).'])
SPECS['C37'] = dict(runs=[
   run('h_io.cpp', 'io_write', ['written'], 'two outputs to any of three streams, texts of up to 2 characters of 1..4 bytes, six kinds of argument'),
   run('h_io.cpp', 'io_read', ['empty line or end of input', 'line'], B('every ASCII input of up to 3 bytes, three reads of five kinds', 'up to 4 bytes'), dict(NMAX=2), dict(NMAX=3)),
   run('h_io.cpp', 'io_read_unicode', ['read'], 'every line of up to 2 characters of 1..4 bytes'),
   run('h_io.cpp', 'io_string', ['line', 'at the end'], B('every text of up to 3 characters of 1 or 2 bytes, three extractions', 'up to 4 characters'), dict(NMAX=2, LENS=3), dict(NMAX=3)),
   run('h_io.cpp', 'io_long', ['written'], 'lines of 0, 80 and 800 mixed characters around an arbitrary one of 1 to 4 bytes, read as lines and characters and written in eight pieces, five kinds of argument')])
SPECS['C38'] = dict(runs=[
   run('h_testing.cpp', 'tst_run', ['some failed', 'all passed'], B('two statically registered tests (one with a fixture) and up to one more in any of three suites, five outcomes each', 'up to two more'), dict(MORE=1), dict(MORE=2)),
   run('h_testing.cpp', 'tst_many', ['some failed', 'all passed'], 'ten tests in four suites registered in three orders; outcomes all passing, all failing, all throwing or in turn, but for one arbitrary outcome of one arbitrary test'),
   run('h_testing.cpp', 'tst_again', ['some failed', 'all passed'], B('two runs of two or three tests, one perhaps registered between them, three outcomes each', 'three runs, two outcomes each'), dict(MORE=1), dict(MORE=2)),
   run('h_testing.cpp', 'tst_assert', ['decided'], 'every pair of 32-bit operands, 11 assertion macros'),
   run('h_testing.cpp', 'tst_strings', ['decided'], 'every pair of C strings of up to 2 bytes or null')],
   assumptions=['The clock stands still (reported durations are not checked).'])
SPECS['C39'] = dict(runs=[run('h_app.cpp', 'app_start', ['started'], B('every history of 3 starts, with or without up to 2 arguments of up to 2 bytes, argument counts 0, 1, 2 and -1', 'the same')),
   run('h_app.cpp', 'app_many', ['started'], '1, 70 or 300 arguments of up to 450 characters, one with an arbitrary character of 1 to 4 bytes')])
SPECS['C43'] = dict(runs=[
   run('h_json.cpp', 'json_history', ['document', 'error'], B('histories of 2 operations out of 11 (six ways of giving a text, copying, moving, assigning to itself, changing a member) on two documents, seven texts of which four are documents and one has an arbitrary digit', '3 operations, three ways of giving three texts'), dict(STEPS=2), dict(STEPS=3)),
   run('h_json.cpp', 'json_messages', ['described'], 'every pair of the 14 error codes')])
SPECS['C42'] = dict(runs=[run('h_misc.cpp', 'num_bounds', ['bounded'], 'every value of the ten integer types and char')])
SPECS['C41'] = dict(runs=[run('h_misc.cpp', 'size_of', ['sized'], 'eleven types, both units')])
# ---- every size up to a bound (texts and numbers of one form per size, with an arbitrary character or digit)
UPTO = lambda what, q, t=None: B(what % q, what % t if t else None)
def also(pid, *runs): SPECS[pid]['runs'] += runs
STR_SIZES = run('h_string.cpp', 'str_sizes', ['compared', 'edited'], UPTO('texts of every size from 0 to %d characters that end with an arbitrary character of 1 to 4 bytes: built, copied, moved, cleared, joined, inserted into, cut, compared and searched', 130, 300), dict(SIZES=130), dict(SIZES=300))
for pid in ('C03', 'C04', 'C05', 'C06'): also(pid, STR_SIZES)
FMT_SIZES = run('h_format.cpp', 'fmt_sizes', ['padded', 'cut or extended', 'formatted'], UPTO('every width, precision and number of placeholders from 0 to %d, with texts, fractions and arguments of about that size that have an arbitrary character or digit', 40, 90), dict(SIZES=40), dict(SIZES=90))
for pid in ('C09', 'C10'): also(pid, FMT_SIZES)
TXT_SIZES = run('h_text.cpp', 'txt_sizes', ['done'], UPTO('every size from 0 to %d: copies, fields and their number, spaces around, digits before and an escape after so many characters, with one arbitrary ASCII character', 130, 300), dict(SIZES=130), dict(SIZES=300))
for pid in ('C12', 'C13'): also(pid, TXT_SIZES)
also('C14', run('h_text.cpp', 'sb_sizes', ['built'], UPTO('every number of appends from 0 to %d of an arbitrary character, then one of that size to a copy', 130, 260), dict(SIZES=130), dict(SIZES=260)))
also('C15', run('h_text.cpp', 'kmp_sizes', ['searched'], UPTO('patterns of every size up to %d in four kinds with an arbitrary last byte, texts of about three times that', 66, 130), dict(SIZES=130), dict(SIZES=258)))
also('C16', run('h_bigint.cpp', 'big_sum_sizes', ['summed'], UPTO('sums, differences and comparisons of numbers of every size from 1 to %d digits, all nines or 1 and zeros, with an arbitrary last digit', 70, 110), dict(SIZES=70), dict(SIZES=110)),
   run('h_bigint.cpp', 'big_zero', ['zero'], B('zero as the result of eleven kinds of operation on every signed integer of up to 3 digits', 'up to 4 digits'), {}, dict(DA=4)))
also('C17', run('h_bigint.cpp', 'big_mul_sizes', ['multiplied'], UPTO('products of numbers of every size from 1 to %d digits with an arbitrary last digit, by 7 or by one of the same size, and back', 32, 48), dict(SIZES=32), dict(SIZES=48)),
   run('h_bigint.cpp', 'big_pow_sizes', ['raised'], UPTO('every exponent from 0 to %d of 2, -3, 10, 0, 1 and -1; up to 12 of 10 to 19', 95, 159), dict(SIZES=48), dict(SIZES=80)),
   run('h_bigint.cpp', 'big_zero', ['zero'], 'zero as the result of eleven kinds of operation on every signed integer of up to 3 digits'))
also('C18', run('h_bigint.cpp', 'big_text_sizes', ['printed'], UPTO('numbers of every size from 1 to %d digits, all nines or 1 and zeros, with an arbitrary last digit; their copies and absolute values', 110, 160), dict(SIZES=110), dict(SIZES=160)))
also('C19', run('h_bigfloat.cpp', 'bf_sizes', ['decided'], UPTO('decimals of every size from 1 to %d digits, the point at the end, in the middle or after the first one, an arbitrary last digit: text, comparison, sum, difference and product (up to 20 digits)', 64, 100), dict(SIZES=64), dict(SIZES=100)))
JSON_SIZES = run('h_json.cpp', 'json_sizes', ['accepted', 'rejected'], UPTO('eight kinds of document of every size from 0 to %d (elements, members, characters of keys and values, white space, depth, digits, escapes), one in eight followed by an arbitrary character', 70, 200), dict(SIZES=70), dict(SIZES=200))
for pid in ('C20', 'C22', 'C23'): also(pid, JSON_SIZES)
also('C20', run('h_json.cpp', 'json_huge', ['accepted', 'rejected'], B('documents of more than 65535 characters: 65600 spaces before a member, then one with an arbitrary digit, closed or not', '66000 too; as long a key or text too'), {}, dict(DEEP=1), dict(steps=2000000000)))
also('C21', JSON_SIZES, run('h_json.cpp', 'json_edits', ['accepted', 'rejected'], B('three documents with one character left out, put in or replaced, by any of twelve kinds of token', 'two such edits'), dict(EDITS=1), dict(EDITS=2)))
also('C26', run('h_jsonval.cpp', 'jv_access_sizes', ['element', 'no element', 'member', 'no member'], UPTO('arrays of every size up to %d and every 64-bit index; as many keys that differ in one character each, and every key of that size that differs from one in one place', 24, 60), dict(SIZES=24), dict(SIZES=60)))
for pid in ('C29', 'C31'): also(pid, run('h_memory.cpp', 'mem_sizes', ['given up'], UPTO('every number of owners from 1 to %d, as many observers or none', 70, 300), dict(SIZES=70), dict(SIZES=300)))
also('C35', run('h_misc.cpp', 'map_sizes', ['listed'], UPTO('maps and multimaps of every size from 0 to %d entries, one value arbitrary', 70, 300), dict(SIZES=70), dict(SIZES=300)))
also('C36', run('h_io.cpp', 'file_sizes', ['written'], UPTO('two lines of every size and every number of lines from 0 to %d, each with an arbitrary character', 70, 140), dict(SIZES=70), dict(SIZES=140)))
also('C37', run('h_io.cpp', 'io_sizes', ['written'], UPTO('lines of every size and every number of lines from 0 to %d, with an arbitrary character', 70, 200), dict(SIZES=70), dict(SIZES=200)))
also('C38', run('h_testing.cpp', 'tst_sizes', ['some failed', 'all passed'], B('10, 100 and 256 further tests of which all, none, one or all but one pass', 'eight numbers of them from 1 to 300'), dict(MORE=1), dict(MORE=2)))
