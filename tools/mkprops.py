#!/usr/bin/env python3
"""Writes properties.jsonl. The statements live here so that they can be edited as text."""
import json, os, re
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = state
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
V = ['strview.c', 'strview.h']
B = ['strbuf.c', 'strbuf.h']
N = ['strnum.c', 'strnum.h']
I = ['inputs']; H = ['inputs', 'histories']; F = ['inputs', 'fault_sequences']; C = ['inputs', 'configurations']

# ------------------------------------------------------------------ strview
p('V01', 'View functions never read or refer outside the views they are given',
  'No strview function reads a byte outside of the views (or terminated C strings) passed to it, and none of them writes to viewed memory. Every valid view a function returns, stores in an array, or leaves in an updated argument lies entirely within the source view it was derived from (a size of 0 or more, first and last byte inside). An empty or invalid source is accepted by every function.',
  I, 'every content, size and placement in memory of the views, every index and flag',
  'tests look at results for chosen strings inside larger literals, where a read one byte too far is invisible',
  V, [('all public functions', 'strview.c'), ('split_index/split_first_delim/split_last_delim/find_first/find_last', 'strview.c private functions')])
p('V02', 'strview_sub() selects exactly the indexed range, clipped to the source',
  'A negative index counts back from the end of the source. If begin<=end, begin is before the end of the source and end is not before its start, the result is exactly the source bytes from begin to end with both clipped to the source; otherwise the result is invalid. An empty source gives an empty view of the same address and an invalid source gives an invalid view.',
  I, 'every source size from 0 to INT_MAX and every pair of int indexes, including INT_MIN and INT_MAX',
  'the tests use about ten index pairs on one short string; clipping and negative indexes interact over the whole int range',
  V, [('strview_sub', 'strview.c')])
p('V03', 'Trimming removes exactly the leading/trailing characters of the set',
  'strview_trim_start(), strview_trim_end() and strview_trim() remove the longest run of characters of the given set from that end (or both ends) of the source, and nothing else: what is left starts and ends with characters outside the set, at its original address. A source consisting only of such characters becomes empty but stays valid, an empty set removes nothing, and all 256 character values are treated alike, including NUL within a view.',
  I, 'every source content, every set given as a view or as a C string',
  'tests trim a few strings by "<>. " style sets; content of the set and of the source is unconstrained',
  V, [('strview_trim*', 'strview.c'), ('contains_char', 'strview.c')])
p('V04', 'find_first returns the first occurrence of the needle',
  'strview_find_first() and strview_find_first_nocase() return a view, within the haystack and of the size of the needle, of the lowest position at which the needle occurs, and an invalid view if it does not occur there. An empty valid needle is found at the start of any valid haystack, and nothing is found in or with an invalid view. The nocase variants compare as if each letter A-Z were the same as a-z, and all other bytes exactly.',
  I, 'every haystack and needle, overlapping and repeated partial matches, every byte value, needle as view or C string',
  'tests search one sentence for a handful of words',
  V, [('strview_find_first*', 'strview.c'), ('find_first', 'strview.c'), ('memcmp_nocase', 'strview.c')])
p('V05', 'find_last returns the last occurrence of the needle',
  'strview_find_last() and strview_find_last_nocase() return a view, within the haystack and of the size of the needle, of the highest position at which the needle occurs, and an invalid view if it does not occur there, also if the needle is longer than the haystack. An empty valid needle is found at the end of any valid haystack, and nothing is found in or with an invalid view. The nocase variants compare as if each letter A-Z were the same as a-z, and all other bytes exactly.',
  I, 'every haystack and needle, overlapping matches, every byte value, needle as view or C string',
  'tests search one sentence for a handful of words',
  V, [('strview_find_last*', 'strview.c'), ('find_last', 'strview.c')])
p('V06', 'Match, starts_with and contains decide by content alone',
  'strview_is_match() is true exactly if both views are invalid, or both are valid with the same size and bytes. strview_starts_with() is true exactly if the first view begins with the bytes of the second (valid) view, or both are invalid, and strview_contains() exactly if the needle occurs in the haystack. The nocase variants are the same with A-Z and a-z identified; a C string argument behaves as the view of it, and a NULL C string as an invalid view.',
  I, 'every pair of views: contents, sizes, same or different memory, valid, empty or invalid',
  'tests compare a few literals; one differing byte at any position, or a NUL inside a view, must decide',
  V, [('strview_is_match*', 'strview.c'), ('strview_starts_with*', 'strview.c'), ('strview_contains*', 'strview.c')])
p('V07', 'strview_compare() is alphabetical order',
  'The sign of strview_compare() is that of the first differing byte (bytes compared as unsigned values), and if one view is a prefix of the other the longer one is greater; it is 0 exactly for equal content. It therefore is a total order: swapping the arguments reverses the sign and it is transitive. An invalid view is less than any non-empty view and equal to another invalid view.',
  I, 'every pair and triple of views',
  'tests compare three or four literals; order laws are over pairs and triples',
  V, [('strview_compare', 'strview.c')])
p('V08', 'split_first_delim cuts at the first delimiter',
  'strview_split_first_delim() returns the source up to the first delimiter character and leaves in the source what follows that delimiter (empty but valid if nothing follows), so result, delimiter and remainder together are the original source. With exclude_quotes, delimiters inside a pair of double quotes do not count. If there is no delimiter the whole source is returned and the source becomes invalid.',
  I, 'every source, delimiter set and quote arrangement',
  'tests split a few lists; delimiter sets, empty fields, unbalanced quotes combine freely',
  V, [('strview_split_first_delim', 'strview.c'), ('split_first_delim', 'strview.c')])
p('V09', 'split_last_delim cuts at the last delimiter',
  'strview_split_last_delim() returns what follows the last delimiter character (empty but valid if nothing follows) and leaves in the source what precedes that delimiter. With exclude_quotes, delimiters inside double quotes, as paired up from the end of the source, do not count. If there is no delimiter the whole source is returned and the source becomes invalid.',
  I, 'every source, delimiter set and quote arrangement',
  'tests split a few lists; delimiter sets, empty fields, unbalanced quotes combine freely',
  V, [('strview_split_last_delim', 'strview.c'), ('split_last_delim', 'strview.c')])
p('V10', 'split_all returns every field in order and never overruns its array',
  'strview_split_all() stores at most dst_size views and returns how many it stored: the first fields of the source in order, one more field than there are (unquoted) delimiters if the array is large enough. Joining all the fields with the delimiters between them gives the source, and an invalid source gives 0 fields.',
  I, 'every source, delimiter set, quoting and array size from 0',
  'tests split fixed lists into arrays of fixed size',
  V, [('strview_split_all', 'strview.c')])
p('V11', 'split_index and pop_first_char cut at the index',
  'strview_split_index() with index n>=0 returns the first n bytes (all, if n exceeds the size) and leaves the rest; with n<0 it returns the last -n bytes (all, if more) and leaves the rest; both parts stay valid. strview_pop_first_char() removes and returns the first byte of a non-empty view, and returns 0 for an empty or invalid one without changing it.',
  I, 'every source size from 0 to INT_MAX and every int index',
  'tests use a few indexes on one short string; the clamps matter over the int range',
  V, [('strview_split_index', 'strview.c'), ('split_index', 'strview.c'), ('strview_pop_first_char', 'strview.c')])
p('V12', 'split_left and split_right cut at the edge of a view within the source',
  'If the start of pos lies within the source (or at its end), strview_split_left() returns the source before it and leaves the rest; if the end of pos lies within the source (or at its start or end), strview_split_right() returns the source after it and leaves the rest. In both cases the two parts together are the original source and both stay valid. If pos is invalid or lies elsewhere the result is invalid and the source unmodified.',
  I, 'every placement of pos relative to source, every size',
  'tests use positions found in one sentence',
  V, [('strview_split_left', 'strview.c'), ('strview_split_right', 'strview.c')])
p('V13', 'split_line takes one line and its terminator, or nothing',
  'strview_split_line() returns the bytes before the first CR or LF and removes them and the terminator from the source, where CRLF and LFCR count as a single terminator; after that *eol is 0 if such a pair was completed and otherwise the single terminator character. If *eol holds a CR or LF and the source starts with its counterpart, that character is first skipped as part of the previous terminator. Without a terminator the result is invalid, and source and *eol are unmodified.',
  I, 'every source content and every state of the discriminator, or none',
  'tests use a few mixtures of line endings; the state and the content combine',
  V, [('strview_split_line', 'strview.c')])
p('V14', 'Lines of a stream do not depend on how it is divided into chunks',
  'When text arrives in chunks, each appended to what the previous calls left over, and lines are taken with strview_split_line() and a saved *eol, the sequence of lines is the same as for the whole text at once, wherever it is cut. No character of the text is lost or duplicated, and a CRLF or LFCR divided between two chunks yields one line ending.',
  H, 'every text and every division of it into chunks',
  'tests feed one example in fixed pieces; the lines depend on every cut position within every terminator',
  V, [('strview_split_line', 'strview.c')], state=[dict(name='*eol', meaning='last terminator character seen, still waiting for a possible counterpart')])
p('V15', 'dequote removes balanced outer quotes of one kind, and only those',
  'strview_dequote() removes a leading and trailing quote character as a pair, repeatedly, as long as both ends are the same quote character (double or single) as the outermost one. Anything else, including a single quote character, an unbalanced quote or other repeated first and last characters, is left in place.',
  I, 'every content', 'tests dequote five literals',
  V, [('strview_dequote', 'strview.c')])
p('V16', 'cstr() and strview_to_cstr() convert without loss or overrun',
  'cstr() views exactly the characters before the terminating NUL, and is invalid for NULL. strview_to_cstr() writes the first min(size, dst_size-1) bytes of the view followed by NUL and no byte beyond dst_size, writes nothing if dst_size is 0 or dst is NULL, and returns dst; an invalid view gives an empty string.',
  I, 'every view content and size, every destination size from 0',
  'tests convert one string into one array size',
  V, [('cstr', 'strview.c'), ('strview_to_cstr', 'strview.c')])

p('V17', 'Literal, validity and printf macros describe exactly the view',
  'cstr_SL() is a valid view of all characters of a string literal except the NUL that ends it, NUL characters within it included. STRVIEW_INVALID, as an initializer, value or argument, is a view that strview_is_valid() refuses, and a view of any address is valid even if its size is 0. "%"PRIstr with PRIstrarg() of any view expression passes exactly the size and the characters of that view.',
  I, 'every view, as a variable or an expression',
  'tests use the macros with simple variables and plain literals',
  V, [('cstr_SL, PRIstr, PRIstrarg, STRVIEW_INVALID', 'strview.h'), ('strview_is_valid', 'strview.c')])

# ------------------------------------------------------------------ strbuf
OP = 'any buffer state (content, size, capacity, dynamic or fixed) and any arguments'
p('B01', 'Every buffer operation keeps the buffer well formed',
  'After any strbuf function, for any prior content and any arguments, 0 <= size <= capacity, the character after the content is NUL, all of it lies within the allocation, and the view returned (where it is valid) is exactly the content of the buffer. Nothing outside of the memory of the buffer and its allocations is written.',
  H, OP + ', which by induction covers every sequence of operations',
  'tests run a few sequences on small strings; the invariant must survive every operation from every state',
  B, [('all public functions', 'strbuf.c'), ('insert_strview_into_buf', 'strbuf.c'), ('change_buf_capacity', 'strbuf.c')],
  state=[dict(name='size,capacity,cstr[]', meaning='content bytes, bytes available, content and its NUL')])
p('B02', 'Append, prepend, insert and append_char produce the spliced content',
  'strbuf_append(), strbuf_prepend() and strbuf_insert_at_index() with a source outside of the buffer give the previous content with the source bytes spliced in at the end, the start or the index, where an index past the end means the end, a negative index counts from the end, and one before the start means the start. strbuf_append_char() adds that one character. A dynamic buffer always has room; an invalid or empty source, or NULL C string, changes nothing.',
  I, OP + ', every int index', 'tests insert a few words at a few indexes',
  B, [('insert_strview_into_buf', 'strbuf.c'), ('append_char_to_buf', 'strbuf.c'), ('strbuf_insert_at_index*', 'strbuf.c')])
p('B03', 'Sources within the destination buffer are handled as if copied first',
  'When the source of strbuf_assign(), strbuf_append(), strbuf_prepend(), strbuf_insert_at_index(), strbuf_insert_before() or strbuf_insert_after() is a view within the destination buffer, the resulting content is the same as if the source bytes had been copied beforehand. This holds for dynamic and fixed buffers, also if the operation relocates the buffer, shifts the source, or splits it.',
  I, OP + ', every sub-range of the content as source, every insertion point before, inside or after it',
  'tests insert one word into the middle of itself; relocation, left part and shifted part interact over every range and index',
  B, [('insert_strview_into_buf', 'strbuf.c'), ('strbuf_assign', 'strbuf.c'), ('buf_contains_str', 'strbuf.c')])
p('B04', 'A fixed buffer stays in its storage and is emptied when content does not fit',
  'For a buffer of fixed capacity, an operation whose result fits gives the full result, and an assign, append, prepend, insert, append_char, cat, printf or prnf whose result does not fit leaves the buffer empty, and not truncated. The buffer never moves, its capacity never changes, no allocator is called, and no byte beyond the storage it was created in is written.',
  I, 'every capacity, content and result size, in particular one below, at and one above the capacity',
  'tests overflow one buffer by one string',
  B, [('insert_strview_into_buf', 'strbuf.c'), ('append_char_to_buf', 'strbuf.c'), ('buffer_vcat', 'strbuf.c'), ('strbuf_assign', 'strbuf.c'), ('strbuf_append_vprintf', 'strbuf.c')])
p('B05', 'strbuf_cat() assigns the concatenation of its arguments',
  'strbuf_cat() and strbuf_vcat() replace the content by the concatenation of all arguments in order, where invalid views count as empty. If the destination is dynamic, arguments may be views within the destination, in any combination and order, and are taken as they were before the call; no temporary allocation remains afterwards.',
  I, OP + ', any number of arguments up to the bound, each inside or outside of the destination',
  'tests concatenate three fixed strings; aliasing patterns and reallocation combine',
  B, [('buffer_vcat', 'strbuf.c'), ('_strbuf_cat/strbuf_vcat', 'strbuf.c')])
p('B06', 'strbuf_assign() replaces the content',
  'After strbuf_assign() the content is exactly the bytes of the source view. An invalid source empties the buffer.',
  I, OP, 'tests assign a few literals',
  B, [('strbuf_assign', 'strbuf.c')])
p('B07', 'The allocator protocol is respected and no allocation leaks',
  'A dynamic buffer uses only the allocator it was created with, passing an allocator instance with the same app_data; the pointer passed to release or resize is always NULL or a block this allocator returned and not yet released, and the size passed is enough for all that is stored. After any operation the only live block is that of the buffer, and none after strbuf_destroy(). A block is never used after it was released or moved.',
  H, 'every operation from every state, with an allocator that always moves or never moves the block',
  'tests use realloc, which often does not move the block and does not report misuse',
  B + ['accessories/strbuf_crypt/strbuf_crypt.c'], [('create_buf/destroy_buf/change_buf_capacity', 'strbuf.c'), ('buffer_vcat', 'strbuf.c'), ('strbuf_crypt', 'accessories/strbuf_crypt/strbuf_crypt.c')])
p('B08', 'Capacity: creation, growth steps, grow and shrink',
  'A buffer created for a capacity or from initial content has room for it, with that content (or none). When an operation expands a dynamic buffer the new capacity is the size required rounded up to a multiple of STRBUF_CAPACITY_GROW_STEP, and otherwise the capacity is left alone; strbuf_grow() raises it to at least min_size and never lowers it, and strbuf_shrink() makes it equal to the size. None of them changes the content, on a fixed buffer shrink changes nothing and grow returns an invalid view and changes nothing.',
  C, OP + ', and several growth steps', 'tests check a few capacities with the default step',
  B, [('create_buf', 'strbuf.c'), ('round_up_capacity', 'strbuf.c'), ('strbuf_grow/strbuf_shrink', 'strbuf.c')])
p('B09', 'Sizes that would exceed INT_MAX are refused, not wrapped',
  'If the size of the result of an append, prepend, insert, append_char, cat or printf would exceed INT_MAX, the buffer is emptied; no size or capacity ever wraps around or becomes negative, and no memory is accessed on the strength of a wrapped size. Capacities close to INT_MAX are rounded to at most INT_MAX. There is no signed overflow in the size arithmetic.',
  I, 'every buffer size and source size up to INT_MAX, in combination',
  'no test can allocate buffers of this size; the arithmetic must hold for all pairs',
  B, [('add_will_overflow_int', 'strbuf.c'), ('round_up_capacity', 'strbuf.c'), ('insert_strview_into_buf', 'strbuf.c'), ('buffer_vcat', 'strbuf.c')])
p('B10', 'strbuf_printf family stores exactly what vsnprintf produces',
  'strbuf_printf()/strbuf_vprintf() replace the content by, and strbuf_append_printf()/strbuf_append_vprintf() add to the content, exactly the text vsnprintf() produces for the format and arguments. If that text does not fit a fixed buffer, or vsnprintf() fails, the buffer is emptied; vsnprintf() is never told of more space than the buffer has.',
  F, 'every text length and content, every prior content and capacity, a formatter that may fail (return a negative value)',
  'tests print a few numbers; a failing vsnprintf and lengths at the edge of the capacity are not reached',
  B, [('strbuf_append_vprintf', 'strbuf.c')])
p('B11', 'strbuf_prnf family stores exactly what the formatter emits',
  'strbuf_prnf()/strbuf_vprnf() replace the content by, and strbuf_append_prnf()/strbuf_append_vprnf() add to the content, exactly the characters vfptrprnf() emits. If they do not fit a fixed buffer, the buffer is emptied.',
  I, 'every emitted text, every prior content and capacity',
  'tests print a few numbers',
  B, [('strbuf_append_vprnf/strbuf_vprnf', 'strbuf.c'), ('char_handler_for_prnf', 'strbuf.c')])
p('B12', 'append_using trusts no fetcher',
  'strbuf_append_using() offers the fetcher exactly the free space of the buffer, starting right after the content, and appends exactly as many bytes as the fetcher reports. If the fetcher reports a negative number or more than it was offered, the buffer is emptied and the view returned is invalid.',
  F, 'every return value of the fetcher, every prior content and capacity',
  'tests use a well behaved fetcher and one or two bad values',
  B, [('strbuf_append_using', 'strbuf.c')])
p('B13', 'strip deletes exactly the given characters',
  'strbuf_strip() leaves exactly those characters of the content that are not in the given set, in their order, and an invalid set changes nothing.',
  I, 'every content and set', 'tests strip one string',
  B, [('strbuf_strip_strview', 'strbuf.c')])
p('B14', 'Fixed buffers are created only in memory that can hold them',
  'strbuf_create_fixed() returns NULL if the address is NULL, not aligned for a pointer, or the size cannot hold the header and a NUL; otherwise it returns an empty fixed buffer at that address whose capacity is the space minus header and NUL, and at most INT_MAX. STRBUF_STATIC_INIT() and STRBUF_FIXED_CAP() give empty fixed buffers of the capacity stated.',
  I, 'every address alignment and every size up to SIZE_MAX',
  'tests use one array',
  B, [('strbuf_create_fixed', 'strbuf.c'), ('STRBUF_FIXED_CAP/STRBUF_STATIC_INIT', 'strbuf.h')])
p('B15', 'Destroy and to_cstr end the life of the buffer',
  'strbuf_to_cstr() returns the content as a NUL terminated string and sets the pointer to NULL; for a dynamic buffer the string is the start of the only live block of its allocator, resized to the length plus one. strbuf_destroy() releases the block of a dynamic buffer once, leaves the memory of a fixed buffer alone, and sets the pointer to NULL; a second destroy does nothing.',
  H, 'every content, dynamic or fixed', 'tests convert one string and cannot see leaks or double release',
  B, [('strbuf_to_cstr', 'strbuf.c'), ('strbuf_destroy', 'strbuf.c')])
p('B16', 'NULL buffers and missing allocators are tolerated',
  'Every buffer function called with a NULL buffer address, or the address of a NULL buffer pointer, does nothing and returns an invalid view, NULL or 0. Creating a buffer without an allocator when no default allocator exists returns NULL.',
  C, 'every function and every value of the other arguments', 'tests pass NULL to a few functions',
  B + ['accessories/strbuf_io.c', 'accessories/strbuf_crypt/strbuf_crypt.c'], [('entry checks of all public functions', 'strbuf.c')])
p('B17', 'insert_before and insert_after insert at the edge of a view of the buffer',
  'strbuf_insert_before() inserts at the start and strbuf_insert_after() at the end of a view within the buffer, giving the previous content with the source spliced in there. If that position is not within the content of the buffer (or at its end), or the view is invalid, the buffer is unchanged.',
  I, OP + ', every destination view within the buffer, at its end, or elsewhere', 'tests insert around one word',
  B, [('strbuf_insert_before_strview/strbuf_insert_after_strview', 'strbuf.c')])
p('B18', 'Sequences of operations on a buffer behave like operations on a string',
  'After any sequence of buffer operations the content equals that of an ordinary string on which the same edits were made (emptied whenever a fixed buffer could not hold the result), with no influence of earlier operations other than through the content and capacity. Two buffers used alternately do not affect each other.',
  H, 'every sequence of operations up to the bound with arbitrary arguments',
  'tests run a few fixed sequences; hidden state or a stale pointer shows only in particular orders',
  B, [('all public functions', 'strbuf.c')])

# ------------------------------------------------------------------ strnum
p('N01', 'Unsigned decimal numbers convert to their exact value',
  'For every digit string, with leading zeros or spaces, the unsigned strnum functions give 0 and the exact value if it is within the range of the destination type, and ERANGE if it exceeds it; digits end at the first non-digit. No value is ever wrapped or truncated. Text that does not start with a digit (a sign included) gives EINVAL.',
  I, 'every digit string (length beyond the longest representable number), every following text, every type',
  'tests convert the limits and a few neighbours; the accumulation switches type width midway and each boundary is a separate carry case',
  N, [('consume_unsigned', 'strnum.c'), ('consume_decimal_digits', 'strnum.c')])
p('N02', 'Signed decimal numbers convert to their exact value',
  'For every digit string with optional single sign the signed strnum functions give 0 and the exact value if within the range of the destination type (including its minimum), and ERANGE otherwise. With STRNUM_NOSIGN a sign gives EINVAL, and a sign not followed by a digit gives EINVAL.',
  I, 'every sign, digit string, following text, and type', 'tests convert the limits and a few neighbours',
  N, [('consume_signed', 'strnum.c'), ('consume_sign', 'strnum.c')])
p('N03', 'Binary and hexadecimal numbers convert to their exact value',
  'With a prefix 0x/0X or 0b/0B, or the option STRNUM_BASE_HEX or STRNUM_BASE_BIN, digits of that base convert to their exact value or give ERANGE if it exceeds the type; upper and lower case digits are equal and digits end at the first character that is not a digit of the base.',
  I, 'every digit string of either base up to beyond 64 bits, every type', 'tests convert a few constants',
  N, [('consume_hex_digits', 'strnum.c'), ('consume_bin_digits', 'strnum.c'), ('consume_base_prefix', 'strnum.c')])
p('N04', 'Options restrict what is accepted, and only that',
  'STRNUM_NOSPACE refuses leading spaces, STRNUM_NOSIGN refuses a sign, STRNUM_NOBX takes no base prefix (so "0x1" is the number 0 followed by "x1"), STRNUM_BASE_HEX accepts only a hex prefix and STRNUM_BASE_BIN only a binary one, and without a base option either prefix is recognised; a prefix must be followed by a digit of its base. For every text and every combination of options (but both bases at once) the status, value and remainder are those of this grammar.',
  C, 'every text up to the bound and every combination of options', 'tests use each option once or twice',
  N, [('consume_signed/consume_unsigned', 'strnum.c'), ('consume_base_prefix', 'strnum.c')])
p('N05', 'A failed conversion changes nothing',
  'When a strnum_consume function does not return 0, the destination and the source view are exactly as before. The functions returning a value then return the default passed to them. A NULL or invalid source gives EINVAL, and a NULL destination is accepted.',
  I, 'every text that does not convert, every type, every option', 'tests check the destination after one or two failures',
  N, [('consume_signed/consume_unsigned', 'strnum.c'), ('strnum_consume_float/double/ldouble', 'strnum.c')])
p('N06', 'A successful conversion consumes exactly the number',
  'When a strnum_consume function returns 0 the source view has lost exactly the leading spaces, sign, prefix and digits of the number, and starts with the first character that is not part of it; it is empty when all was consumed. Numbers separated by single characters can thus be read one after the other.',
  H, 'every text: number followed by anything', 'tests check the remainder of a few strings',
  N, [('consume_signed/consume_unsigned', 'strnum.c'), ('consume_*_digits', 'strnum.c')])
p('N07', 'All conversion functions of a type agree',
  'For every text and option the functions returning a value (strnum_int, strnum_u8, ...) give the value the consume function of that type stores, or the default if it fails, and strnum_value() selects the function of the type of its destination. Every type uses exactly its own limits.',
  C, 'every text around the limits of the type, every type', 'tests check each function with two or three numbers',
  N, [('strnum_i8..strnum_u64, strnum_char..strnum_ullong', 'strnum.c'), ('strnum_value', 'strnum.h')])
p('N08', 'Floating point syntax is recognised and consumed exactly',
  'The float functions accept optional spaces, an optional sign, and then digits with an optional decimal point (at least one digit on either side) and an optional exponent, or inf, infinity or nan in any case; they consume exactly that and give EINVAL for anything else. An "e" that is not followed by an integer is left in the source, as is any exponent with STRNUM_NOEXP; STRNUM_NOSIGN and STRNUM_NOSPACE refuse sign and spaces.',
  C, 'every text up to the bound, every option', 'tests parse some dozens of literals',
  N, [('process_float_components', 'strnum.c'), ('consume_exponent', 'strnum.c'), ('consume_float_special', 'strnum.c')])
p('N09', 'Floating point values are those of the digits',
  'The value stored is that of the decimal number written (with no more digits on either side of the point than the range of the type spans), within the rounding error of a few operations of the type, with its sign; zero whatever its exponent gives zero, inf and infinity give an infinity of that sign and nan gives a NaN. The same digits give the same value (within rounding) wherever the decimal point and the compensating exponent are placed.',
  I, 'every digit string up to the bound, every position of the point', 'tests compare some dozens of literals',
  N, [('make_float/make_double/make_ldouble', 'strnum.c')])
p('N10', 'Floating point overflow is reported and changes nothing',
  'A number too large for the type gives ERANGE, an exponent beyond the range of int gives ERANGE, and in every failure the destination and the source are unmodified. A conversion that succeeds never stores a NaN or an infinity unless the text says so.',
  I, 'every text up to the bound with every exponent', 'tests try one overflow per type',
  N, [('strnum_consume_float/double/ldouble', 'strnum.c'), ('consume_exponent', 'strnum.c')])
p('N11', 'Without floating point support the integer conversions are unchanged',
  'Built with STRNUM_NOFLOAT the library compiles, strnum_value() selects the integer function of the type of its destination, and every integer conversion gives the same status, value and remainder as in the full build.',
  C, 'every text up to the bound in the STRNUM_NOFLOAT configuration', 'the test suite is never built in this configuration',
  N, [('STRNUM_NOFLOAT', 'strnum.c, strnum.h')])

# ------------------------------------------------------------------ accessories
p('A01', 'Byte order conversion is exact for every value and type',
  'xendian_pack_LE/BE() of an 8, 16, 32 or 64 bit signed or unsigned integer gives a value of the same type whose bytes in memory are those of the argument, least significant first for LE and most significant first for BE. xendian_unpack_LE/BE() is its inverse.',
  I, 'every value of every supported type', 'tests swap one constant per type',
  ['accessories/xendian.h'], [('xendian_swap16/32/64', 'accessories/xendian.h'), ('xendian_SWAP', 'accessories/xendian.h')])
p('A02', 'Packed integers read back as packed',
  'STRBUF_PACK_LE/BE() appends exactly the bytes of the integer in that order to the content, and STRVIEW_UNPACK_LE/BE() takes exactly as many bytes from the view and gives the value they hold. Any sequence of integers packed into a buffer therefore unpacks to the same values in the same order.',
  H, 'every value, type and order of types up to the bound', 'tests pack one record',
  ['accessories/strbuf_pack.h', 'accessories/strview_unpack.h', 'accessories/xendian.h'], [('STRBUF_PACK_*', 'accessories/strbuf_pack.h'), ('STRVIEW_UNPACK_*', 'accessories/strview_unpack.h')])
p('A03', 'strbuf_append_read() appends exactly what read() delivered',
  'strbuf_append_read() calls read() once with exactly the free space of the buffer, appends the bytes delivered, keeps the terminator and the capacity, and returns the result of read(). On end of file or error the content is unchanged.',
  F, 'every result of read() (short, zero, error), every prior content and capacity', 'tests read one file',
  ['accessories/strbuf_io.c', 'accessories/strbuf_io.h'], [('strbuf_append_read', 'accessories/strbuf_io.c')])
p('A04', 'Writing removes exactly what was written, whatever write() accepts',
  'strbuf_write() and strview_write() pass the whole content to write() once, return its result, and remove exactly the bytes it accepted from the front; on an error nothing is removed. Over any sequence of short writes and errors the bytes accepted, in order, followed by what remains, are the original content.',
  F, 'every sequence of results of write()', 'tests write once to a file or pipe that takes everything',
  ['accessories/strbuf_io.c', 'accessories/strview_io.c'], [('strbuf_write', 'accessories/strbuf_io.c'), ('strview_write', 'accessories/strview_io.c')])
p('A05', 'The AES S-boxes and field arithmetic are those of FIPS-197',
  'The S-box is the affine transform of the inverse in GF(2^8), the inverse S-box inverts it for every byte, and gf256mul() is multiplication in the field of the given reduction polynomial.',
  I, 'every byte and pair of bytes', 'tests encrypt a few vectors, which touch some of the entries',
  ['accessories/strbuf_crypt/aes/aes_sbox.c', 'accessories/strbuf_crypt/aes/aes_invsbox.c', 'accessories/strbuf_crypt/aes/gf256mul.c'],
  [('aes_sbox', 'aes/aes_sbox.c'), ('aes_invsbox', 'aes/aes_invsbox.c'), ('gf256mul', 'aes/gf256mul.c')])
p('A06', 'The AES-256 key schedule is that of FIPS-197',
  'For every 256 bit key, the 15 round keys computed by aes256_init() are those of the FIPS-197 key expansion, and no byte outside of the context is written.',
  I, 'every key', 'tests use a few keys',
  ['accessories/strbuf_crypt/aes/aes_keyschedule.c'], [('aes256_init/aes_init', 'aes/aes_keyschedule.c')])
p('A07', 'AES block encryption and decryption are FIPS-197 and each other\'s inverse',
  'For every block and round keys, encryption of a block is the FIPS-197 cipher (SubBytes, ShiftRows, MixColumns, AddRoundKey for each round) and decryption is its inverse, for AES-256 with 14 rounds. No byte outside of the block is changed, nor the round keys.',
  I, 'every block and every set of round keys', 'tests encrypt a few vectors',
  ['accessories/strbuf_crypt/aes/aes_enc.c', 'accessories/strbuf_crypt/aes/aes_dec.c', 'accessories/strbuf_crypt/aes/aes256_enc.c', 'accessories/strbuf_crypt/aes/aes256_dec.c'],
  [('aes_encrypt_core', 'aes/aes_enc.c'), ('aes_decrypt_core', 'aes/aes_dec.c'), ('aes256_enc/aes256_dec', 'aes/aes256_enc.c, aes256_dec.c')])
p('A08', 'strbuf_encrypt() is CBC with PKCS#7 padding',
  'strbuf_encrypt() replaces the content by its AES-256 CBC encryption under the key and initialisation vector, with 1 to 16 bytes of PKCS#7 padding, and returns a view of it; key and vector are not modified. A dynamic buffer is grown as needed; a fixed buffer that cannot hold the padded content is left unchanged and an invalid view returned.',
  I, 'every content, its size relative to the block, key and vector', 'tests encrypt a few strings',
  ['accessories/strbuf_crypt/strbuf_crypt.c', 'accessories/strbuf_crypt/aes/memxor.c'], [('strbuf_encrypt', 'accessories/strbuf_crypt/strbuf_crypt.c'), ('enc256cbc', 'accessories/strbuf_crypt/strbuf_crypt.c')])
p('A09', 'Decryption inverts encryption',
  'strbuf_decrypt() with the same key and vector after strbuf_encrypt() restores the content exactly, for any content including bytes that look like padding, on dynamic and fixed buffers, and returns a view of it.',
  H, 'every content, size, key and vector', 'tests round-trip a few strings',
  ['accessories/strbuf_crypt/strbuf_crypt.c'], [('strbuf_decrypt', 'accessories/strbuf_crypt/strbuf_crypt.c'), ('dec256cbc', 'accessories/strbuf_crypt/strbuf_crypt.c')])
p('A10', 'Decrypting what is not a valid cyphertext is harmless',
  'For any content strbuf_decrypt() accesses only the buffer, and leaves a well formed buffer: if the size is not a positive multiple of 16, or the padding length is not 1 to 16, the buffer is emptied and an invalid view returned. Otherwise the content is the CBC decryption without its padding.',
  I, 'every content and size', 'tests decrypt only what was encrypted',
  ['accessories/strbuf_crypt/strbuf_crypt.c'], [('dec256cbc', 'accessories/strbuf_crypt/strbuf_crypt.c')])

for d in P:
    assert len(d['title']) <= 80, d['id']
    assert len(re.findall(r'\.(?:\s|$)', d['statement'])) <= 3, d['id']
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
