#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (P below) and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
S = 'src/utki/'
# id: (title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], observe_at)
P = {}
def p(id, title, st, over, q, why, files, mech, obs=(), na=None):
    P[id] = dict(title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, obs=list(obs), na=na)

p('C01', 'Base64 decoding is exact for every text',
  'Decoding the base64 text of any byte sequence, with or without its padding, gives exactly these bytes, for every length and content (characters outside of the alphabet count as zero bits). Text that cannot be complete base64 (a single leftover character, or padding without a complete group) is rejected with invalid_argument and no other text of complete groups is. Whatever the text is, decoding never touches memory outside of it and always ends.',
  ['inputs'], 'every text of every length and content',
  'Tests try a few literals; every length (residues mod 4 with and without padding) and every character value have to be right.',
  [S+'base64.hpp', S+'base64.cpp'], [('padding removal, loop over groups of 4 characters, trailing group', S+'base64.cpp'), ('decode table', S+'base64.cpp')])
p('C02', 'UTF-8 encoding and decoding are inverse for every code point and string',
  'Every non-zero value below 2^31 is encoded to the UTF-8 byte sequence of 1 to 6 bytes for it (null-terminated), values above give an empty encoding, and decoding that sequence gives exactly that value back and nothing more, both from a counted and from a null-terminated string. Encoding a string of code points gives the encodings of its code points one after another. Decoding at any place of a string yields the character encoded there and continues right behind its last byte.',
  ['inputs'], 'every code point value; strings of any length',
  'Tests decode sample texts; all 2^31 values and the boundaries between the lengths of encodings are out of reach of samples.',
  [S+'unicode.hpp', S+'unicode.cpp'], [('utf8_iterator::operator++', S+'unicode.cpp'), ('to_utf8()', S+'unicode.cpp')])
p('C03', 'Decoding arbitrary bytes as UTF-8 is safe and always ends',
  'Decoding any byte sequence, valid UTF-8 or not, including truncated and overlong sequences, reads only bytes of the given range (or up to and including the terminating null of a null-terminated string), ends, and gives at most one character per input byte.',
  ['inputs'], 'every byte sequence of every length, counted or null-terminated',
  'Malformed input is unbounded in shape; tests only decode well-formed texts.',
  [S+'unicode.hpp', S+'unicode.cpp'], [('utf8_iterator bounds checks', S+'unicode.cpp'), ('to_utf32() loop', S+'unicode.cpp')])
p('C04', 'Fixed-width serialization has the documented byte order and round-trips',
  'Serializing a 16, 32 or 64 bit unsigned value or a float writes exactly its bytes in the order the function names (little or big endian), nothing outside of them, and returns the pointer behind the last byte written. Deserializing those bytes gives the same value (bit pattern) back, and deserializing any bytes gives the value these bytes denote.',
  ['inputs'], 'every value of every width and every buffer content',
  'The value space is up to 2^64; tests check single constants.',
  [S+'utility.hpp'], [('serialize_le/be, deserialize_le/be and the float variants', S+'utility.hpp')])
p('C05', 'Binary deserializer consumes exactly what it reads and rejects short data',
  'Every read from a deserializer yields the value of exactly the next bytes (in the byte order named) and consumes exactly those bytes; strings and spans are exactly the requested bytes. When fewer bytes are left than requested, whatever the requested length, the read or skip throws invalid_argument and the remaining data is unchanged. size() and empty() always describe the bytes which are left.',
  ['inputs', 'histories'], 'any data, any position in it, any requested length',
  'Absurd lengths (wrap-around of pointer and size arithmetic) and every remaining size are not sampled by tests.',
  [S+'deserializer.hpp', S+'deserializer.cpp'], [('throw_if_out_of_bounds / span narrowing', S+'deserializer.cpp')])
p('C06', 'String parser reads and skips exactly the text each operation is specified to',
  'Each operation of the parser (skipping whitespace, whitespace with at most one comma, up to and including a character or one of several characters; reading a word, a word up to a character, a character, a number of characters, characters up to a character) returns exactly the text it is specified to return and leaves exactly the text that follows; it never reads outside of the text given. Reading or peeking a character that is not there throws invalid_argument and changes nothing.',
  ['inputs', 'histories'], 'any text of any length, any argument',
  'Tests parse a few texts; the position a scan stops at has to be right for every text.',
  [S+'string.hpp', S+'string.cpp'], [('string_parser scanning loops', S+'string.cpp')])
p('C07', 'Numbers survive printing and parsing in every supported base',
  'Printing an integer in a base and reading the text back with the string parser gives the same integer and consumes exactly the text printed (unsigned values in every base with their prefix, signed values in decimal). Reading an unsigned number skips whitespace first and recognises the prefixes 0x, 0b and 0 when a digit of that base follows; a 0 followed by 8 or 9 starts a decimal number, and a 0 followed by anything else is zero and leaves the parser right behind the 0. Reading consumes all the digits which follow. Text that does not start with a number throws invalid_argument; a number out of range of the type is consumed and gives zero.',
  ['inputs'], 'every integer value of each width, every base, any text following',
  'All values and all texts following a number are not enumerable by tests.',
  [S+'string.hpp'], [('to_string(), string_parser::read_number()', S+'string.hpp')])
p('C08', 'Splitting keeps every character and cuts exactly at delimiters',
  'Splitting a string at a delimiter gives one more part than there are delimiters, no part contains the delimiter, and the parts with delimiters put between them are exactly the original string (empty parts included). Splitting at whitespace gives exactly the maximal runs of non-whitespace characters, in order, none of them empty.',
  ['inputs'], 'every string of every length, every delimiter',
  'Leading, trailing, adjacent delimiters at every position are only sampled by tests.',
  [S+'string.hpp', S+'string.cpp'], [('split() loops', S+'string.hpp'), ('split(string_view)', S+'string.cpp')])
p('C09', 'Joining strings is the concatenation with delimiters in between',
  'Joining a collection of strings with a delimiter gives the strings in order with exactly one delimiter between neighbours and nothing else; an empty collection gives an empty string. Splitting a string at a delimiter and joining the parts with it gives the string back.',
  ['inputs'], 'any number of strings of any length, every delimiter',
  'Tests join a few literals.',
  [S+'string.hpp'], [('join()', S+'string.hpp')])
p('C10', 'Trim, prefix and suffix functions are exact on every string',
  'Trimming removes exactly the longest run of whitespace at the front, at the back or at both ends and returns the part of the original string that remains, also when all of it is whitespace or it is empty. Prefix and suffix tests are true exactly when the string begins or ends with the given string, including empty and longer ones, for every language version the library is built with.',
  ['inputs', 'configurations'], 'every string, every prefix/suffix; C++17 and C++20 builds',
  'Tests sample a few strings in one language version.',
  [S+'string.hpp'], [('trim_front/trim_back/trim', S+'string.hpp'), ('starts_with/ends_with', S+'string.hpp')])
p('C11', 'Word wrapping never exceeds the width and never loses text',
  'Wrapping a text to a positive width gives lines which are consecutive pieces of the text in order, none longer than the width and none containing a line break; what is left out between and after the lines are only spaces and line breaks, and a line is continued on the next one without anything left out in between only when it is full. Width zero gives the text as a single line. It ends and stays within the text for every input.',
  ['inputs'], 'every text of every length and every width',
  'The interaction of runs of spaces, long words and line breaks at the wrap column is unbounded; tests wrap a few texts.',
  [S+'string.cpp'], [('word_wrap() loop', S+'string.cpp')])
p('C12', 'Sorting yields an ordered permutation for every range',
  'Sorting a random access range with a strict weak ordering leaves its elements ordered by it and leaves exactly the same elements in it (each as often as before), touching nothing outside the range, for every length and content including equal elements, for every language version the library is built with.',
  ['inputs', 'configurations'], 'every range and ordering',
  'Tests sort one array.',
  [S+'sort.hpp'], [('quick_sort, partition', S+'sort.hpp')])
p('C13', 'Flag sets behave as sets of enumeration values',
  'A flag set holds exactly the flags put into it: setting, clearing, inverting and combining sets (and, or, exclusive or, complement) changes exactly the flags it is specified to, whatever the set was before, for enumerations of any size. Tests for all, none and equality agree with the individual flags.',
  ['inputs', 'histories'], 'every content of the sets, every flag; enumerations of size 1, within one machine word and across words',
  'Tests use one enumeration with a handful of values; word boundaries and all contents are not covered.',
  [S+'flags.hpp'], [('flags operations over std::bitset', S+'flags.hpp')])
p('C14', 'Iterating an enumeration visits every value once, in order',
  'Iterating over an enumeration visits exactly its values from the first to the last in order, and its size is their number. An array indexed by an enumeration gives for each value its own element, the same one as indexing by the number of the value, and pairing the elements with the values visits each element with its value in order.',
  ['inputs', 'configurations'], 'every enumeration value; enumerations of different sizes and underlying types',
  'Tests use a single small enumeration.',
  [S+'enum_iterable.hpp', S+'enum_array.hpp'], [('iterator increment, begin/end', S+'enum_iterable.hpp'), ('operator[]', S+'enum_array.hpp')])
p('C15', 'Spans denote exactly the elements they were made from',
  'A span made from a pointer and size, array, vector, string, string view or null-terminated string has exactly the elements of its source; element access, iteration forwards and backwards, checked access and sub-spans address exactly the elements they are specified to, and checked access beyond the end throws out_of_range. Deep comparison of spans agrees with comparing the sequences of elements (equality and lexicographical order). Overlap tests are true exactly for addresses inside the span, also for empty ones.',
  ['inputs'], 'any size, index, offset, count and content',
  'Boundary positions for every size are not covered by a handful of samples.',
  [S+'span.hpp'], [('span members, make_span, deep_*, overlaps', S+'span.hpp')])
p('C16', 'At most one singleton instance exists and it is tracked exactly',
  'At any time at most one instance of a singleton type exists: constructing a second one throws logic_error and leaves the first one in place. The created-test is true exactly between construction and destruction of the instance, and the access function returns that instance, through any sequence of creations and destructions.',
  ['histories'], 'every sequence of creations, failing creations and destructions',
  'Tests run one creation and destruction.',
  [S+'singleton.hpp'], [('constructor and destructor of intrusive_singleton', S+'singleton.hpp')])
p('C17', 'Spin lock gives mutual exclusion and publishes writes',
  'Between a lock and the matching unlock no other thread is between its lock and unlock of the same spin lock, under every schedule. Everything written before an unlock is visible after the next lock. Unlocking makes the lock available again: a lock attempt on a free lock succeeds.',
  ['schedules', 'histories'], 'all schedules of any number of threads',
  'Tests run few threads under the schedules that happen to occur, on a machine with strong memory ordering.',
  [S+'spin_lock.hpp'], [('test_and_set(acquire) loop / clear(release)', S+'spin_lock.hpp')])
p('C18', 'Tree traversal visits every node once in pre-order, and backwards',
  'Traversing a forest forwards visits every node exactly once, each before its descendants and these before its next sibling, and then reaches the end; stepping backwards from any position (including the end) undoes the step forward. The index path of a position and making a position from an index path are inverse, and the path is valid exactly when the node exists. Inserting and erasing at a position changes exactly that place and returns the position specified.',
  ['inputs', 'histories'], 'every forest and every position in it',
  'Tests use one tree; the shapes of trees are unbounded.',
  [S+'tree.hpp'], [('iterator_internal ++/--, make_iterator, insert/erase', S+'tree.hpp')])
p('C19', 'A signal calls each connected slot exactly once, in connection order',
  'Emitting calls every slot connected and not disconnected at that time exactly once, in the order of connecting, each with the values emitted. Disconnecting removes exactly the slot of that connection and no other; the number of slots reported is the number connected.',
  ['histories', 'inputs'], 'every history of connect, disconnect and emit, any argument values',
  'Histories are unbounded; tests run one or two.',
  [S+'signal.hpp'], [('callbacks list, emit() loop', S+'signal.hpp')])
p('C20', 'Scope guard runs its action exactly once unless released',
  'When a scope guard is destroyed its action is run exactly once, whether the scope is left normally or by an exception, unless the guard was released, in which case the action is not run by it and is handed to the caller. An exception thrown by the action does not leave the destructor. An empty action is allowed and does nothing.',
  ['histories', 'fault_sequences'], 'all ways of leaving the scope, with and without release, actions that throw',
  'Tests run the normal exit.',
  [S+'utility.hpp'], [('scope_exit destructor and release()', S+'utility.hpp')])
p('C21', 'Query operations transform collections exactly as specified',
  'Selecting maps every element in order (with its index when asked for), filtering keeps exactly the elements the predicate accepts in order, grouping puts every element in the group of its key in order and nothing else, ordering gives a permutation ordered by the key. A collection passed by reference is left unchanged.',
  ['inputs'], 'collections of any length and content',
  'Tests use a few small collections.',
  [S+'linq.hpp'], [('select/where/group_by/order_by', S+'linq.hpp')])
p('C22', 'Collection views visit exactly the specified elements in order',
  'A reversed view visits all elements last to first; a zipped view visits the elements of all collections in step and stops after the shortest; a view skipping the front visits all elements after the first ones. Advancing an iterator forwards or backwards by a count moves it by exactly that count, whatever the width of its difference type.',
  ['inputs'], 'collections of any length; any count',
  'Lengths (equal, unequal, empty) and counts beyond the range of a difference type are not covered by samples.',
  [S+'views.hpp', S+'utility.hpp'], [('zip_view, reverse_view, skip_front', S+'views.hpp'), ('next()/prev()', S+'utility.hpp')])
p('C23', 'Version comparison is the total order on (major, minor)',
  'Versions are ordered by major number and then by minor number: at-least and less-than are exact opposites and agree with that order for every pair of versions. The packed number of a version has the major number in the upper and the minor number in the lower 16 bits, so that packing preserves the order.',
  ['inputs'], 'all pairs of versions',
  'There are 2^64 pairs; tests check some.',
  [S+'version.hpp'], [('operator>=, operator<, to_uint32_t()', S+'version.hpp')])
p('C24', 'Non-null references always refer to the object they were made for',
  'A shared or unique reference always refers to a live object: making one from a null pointer aborts in debug builds, and access, conversion to a base and dynamic cast give the same object. The object is destroyed exactly once, when the last reference to it is gone, through any copying, moving and conversion; a failing dynamic cast throws bad_cast and changes nothing.',
  ['histories', 'inputs'], 'every sequence of copies, conversions and casts',
  'Tests check single steps.',
  [S+'shared_ref.hpp', S+'unique_ref.hpp'], [('shared_ref, unique_ref, dynamic_reference_cast', S+'shared_ref.hpp')])
p('C25', 'Formatted strings have exactly the formatted text at any length',
  'Formatting a string gives exactly the characters the format produces, complete and without terminator or truncation, for every length of result, including around the size of the internal buffer. Making a string from a buffer of characters or bytes gives exactly these, embedded nulls included.',
  ['inputs'], 'results of any length; any buffer content',
  'Tests format short texts; the change of buffers happens at one length.',
  [S+'string.hpp', S+'string.cpp'], [('make_string_va_list() two-pass loop', S+'string.cpp')])
p('C26', 'Indentation has exactly the specified characters',
  'An indentation of a given depth consists of depth tabs when the indentation size is zero and of depth times size spaces otherwise, for all depths and sizes (without wrapping around at 32 bits).',
  ['inputs'], 'all depths and sizes', 'Products beyond 32 bits are not tried by tests.',
  [S+'string.cpp'], [('make_indentation()', S+'string.cpp')])
p('C27', 'Describing an exception names every nested exception in order',
  'The description of an exception has one line per exception of its nesting chain, outermost first, each with the indentation, the type and, when it is a standard exception, the message; the chain may be of any depth and end in an exception of any type. A stacked exception describes the thrown exception followed by those it was nested around, and its message is that description.',
  ['inputs'], 'chains of every depth of standard, stacked and foreign exceptions', 'Tests use chains of two or three.',
  [S+'exception.hpp', S+'exception.cpp'], [('to_string recursion over rethrow_if_nested', S+'exception.cpp')])
p('C28', 'Small numeric and container helpers agree with their definitions',
  'The sign function is -1 for negative and 1 otherwise, the integer power functions are the repeated products. Flipping a map pairs every value with a key of it, and the membership test is true exactly when an element is in the container.',
  ['inputs'], 'every argument', 'All values are out of reach of samples.',
  [S+'math.hpp', S+'utility.hpp'], [('sign, pow2..pow6', S+'math.hpp'), ('flip_map, contains', S+'utility.hpp')])

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for i, d in sorted(P.items()):
            assert len(d['title']) <= 80, i
            f.write(json.dumps(dict(id=i, title=d['title'], statement=d['st'], quantifier=dict(over=d['over'], text=d['q']), why_tests_cant=d['why'],
                anchors=dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mech']], observe_at=d['obs'], hook_needed=None))) + '\n')
    checks = []; na = []
    for i, d in sorted(P.items()):
        if i not in PROPS:
            na.append(dict(property=i, reason=d['na'] or 'no check built (yet): the contracts of this part are not written')); continue
        q = PROPS[i]
        b = q.get('bounded', {}); level = q.get('level', 'other' if q.get('only_bounded') else 'proof')
        note = q.get('note') or ('every obligation generated from the current source is discharged by SMT for all inputs and iterations; native execution of the same contracts only searches for failing inputs' if not q.get('only_bounded') else
            'a bounded stand-in, not a proof: every obligation generated from the current source is discharged by SMT for all values within the bound')
        if b: note += '. Bounded (not counted as proved): ' + '; '.join('entries %s: %s' % x for x in b.items())
        if q.get('assumptions'): note += '. Assumes: ' + '; '.join(q['assumptions'])
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
            technique=q.get('technique', 'contract-based deductive verification of the compiled functions (VC generation over LLVM IR, SMT)'),
            level=level, level_note=note))
    m = dict(version=1, setup_cmd='python3-vt -c "import check; check.build_irdump()"', checks=checks, not_applicable=na, notes='no hooks in /repo: the checks compile the unmodified sources of the working tree')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
