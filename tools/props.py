#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/props.py). One entry per property.
import json, os
CIO='src/cxon/lang/common/cio/'; BIO='src/cxon/lang/common/bio/'; J='src/cxon/lang/json/'; C='src/cxon/lang/cbor/'; COM='src/cxon/lang/common/'; L='src/cxon/lib/'
P=[]
def p(id,title,statement,over,q,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p('J01','JSON reading never leaves the input range and never throws',
  'Reading any byte sequence as JSON into any supported target type accesses only bytes inside the given input range and memory owned by the target, performs no undefined behaviour, terminates, and throws nothing of its own. This holds for truncated and malformed input, ending at any byte, and for every iterator category.',
  ['inputs'],'all byte sequences (any length and content), all target types (scalars, characters, strings, arrays, containers, maps, classes, optionals, nodes)',
  'The tests feed NUL-terminated literals and a fixed corpus; an over-read of one byte past an exact-size buffer is invisible to them, and only a few of the 256^n truncated or ill-formed inputs occur.',
  [CIO+'char.hxx',CIO+'string.hxx',CIO+'io.hxx',CIO+'numeric.hxx',CIO+'container.hxx',CIO+'class.hxx',CIO+'value.hxx',J+'fundamental.hxx'],
  [('character and escape decoding',CIO+'char.hxx'),('string scanning',CIO+'string.hxx'),('whitespace/comment skipping and bounded peeks',CIO+'io.hxx')])
p('J02','JSON results: success, error code and end position always agree',
  'A read result converts to true exactly when its error code is clear; its end iterator always lies inside the input range, on success directly behind the value read (bytes behind the value do not influence the result), and on failure at the offending input. A write result obeys the same agreement between success and error code.',
  ['inputs'],'all inputs and target types',
  'Each test compares one expected error and position; that no input produces success with an error, failure without one, or an end outside the range needs all inputs.',
  ['src/cxon/cxon.hxx',CIO+'io.hxx',CIO+'cio.hxx',CIO+'class.hxx',J+'fundamental.hxx',J+'compound.hxx'],
  [('interface results',"src/cxon/cxon.hxx"),('error reporting and rewinding',CIO+'cio.hxx')])
p('J03','JSON strings are decoded exactly as RFC 8259 prescribes',
  'With the default traits, reading a JSON string succeeds exactly for the RFC 8259 strings made of valid UTF-8 with well-formed escapes, and yields precisely the text they denote: escapes, surrogate pairs and multi-byte characters decode to the right code points. Unescaped control characters, invalid UTF-8, bad escapes and unpaired surrogates are rejected; narrow and wide target strings and single characters agree with each other (a single 8-bit character target takes code points up to U+00FF).',
  ['inputs'],'all quoted byte sequences; target character types char, char16_t, char32_t, wchar_t',
  'UTF-8 and escape validity is a property of every byte combination (4-byte sequences alone have 2^32 candidates); tests sample the edges of a few ranges.',
  [CIO+'char.hxx',CIO+'string.hxx',CIO+'chcls.hxx',J+'fundamental.hxx'],
  [('UTF-8 validation and conversion',CIO+'char.hxx'),('escape decoding',CIO+'char.hxx'),('string reading',CIO+'string.hxx')])
p('J04','JSON string output is valid and reads back to the same text',
  'Writing any text (valid UTF-8, UTF-16 or UTF-32 string or single character) produces a quoted RFC 8259 string in valid UTF-8 with every quote, backslash and control character escaped, and reading it back gives the identical text (fixed-size character arrays are written without one trailing zero; single 8-bit characters are ASCII). The strict-JavaScript option additionally escapes exactly U+2028 and U+2029.',
  ['inputs','configurations'],'all texts over all Unicode scalar values, all character types, string/char array/pointer/container/map-key sources',
  'Escaping is decided per code point over 1.1 million code points and their neighbours in the buffer; the tests write a handful.',
  [CIO+'char.hxx',CIO+'string.hxx',CIO+'chcls.hxx'],
  [('character encoders',CIO+'char.hxx'),('escape table',CIO+'chcls.hxx'),('range writer',CIO+'string.hxx')])
p('J05','JSON integers are read exactly or rejected',
  'Reading a JSON integer into an integral type of any width and signedness succeeds exactly when the input starts with a decimal integer representable in that type and yields precisely that value; out-of-range numbers, missing digits and non-numbers are rejected with an error and never wrapped or truncated. For RFC 8259 integers the result does not depend on the iterator category of the input or on the strictness of number reading.',
  ['inputs','configurations'],'all digit strings and all integral types (8 to 64 bit, signed and unsigned); pointer and non-random-access iterators; strict and default number modes',
  'Tests check the limits of each type once; wrap-around and acceptance errors hide in specific digit strings and lengths.',
  [CIO+'numeric.hxx',COM+'charconv.hxx',J+'fundamental.hxx'],
  [('number scanning',CIO+'numeric.hxx'),('digit conversion',COM+'charconv.hxx')])
p('J06','JSON integers and booleans written read back to the same value',
  'Writing any value of an integral type, boolean or null produces its canonical JSON literal (minimal decimal digits, a leading minus only for negatives), and reading that literal back gives the same value.',
  ['inputs'],'all values of all integral types; bool; null',
  'The value space is 2^64 per type; tests write the limits only.',
  [CIO+'numeric.hxx',COM+'charconv.hxx',J+'fundamental.hxx'],
  [('number writer',CIO+'numeric.hxx')])
p('J07','JSON arrays, tuples and containers follow the grammar element by element',
  'Reading a list type succeeds exactly for a bracketed, comma separated list of valid elements with optional whitespace, yields the elements in order and count, and rejects missing or extra separators, missing brackets, and more elements than a fixed-size target holds. Writing a list type produces exactly such a list with the elements in order, and reading it back restores the container. (Known deviation, required by existing tests: a std::stack is written top first and read bottom first.)',
  ['inputs'],'all inputs; vectors, lists, forward lists, sets, deques, arrays, std::array, pairs, tuples, spans',
  'Separator and bracket errors occur at any position and nesting; tests contain one example each.',
  [CIO+'container.hxx',J+'compound.hxx',J+'lib/std/tuple.hxx',J+'lib/std/array.hxx',COM+'container.hxx'],
  [('list reader/writer',CIO+'container.hxx'),('fixed-size readers',J+'compound.hxx')])
p('J08','JSON objects and classes bind each key to exactly its own field',
  'Reading a class assigns each member the value given under exactly its key, independent of the order of keys, skips the values of keys declared as skipped, leaves absent members untouched and rejects unknown and (by default) repeated keys; keys are compared after unescaping and in full length. Writing emits every non-default member once under its own key and reading that restores the members.',
  ['inputs','configurations'],'all inputs; classes with several fields, skipped fields and default-suppressed fields; maps with string and number keys',
  'Key mix-ups need keys that are prefixes of, or escape-equal to, one another and particular orders; tests use a few fixed documents.',
  [CIO+'class.hxx',CIO+'key.hxx',J+'class.hxx',J+'lib/std/imp/map.hxx'],
  [('field dispatch',CIO+'class.hxx'),('key reading',CIO+'key.hxx')])
p('J09','JSON enumerations, variants, optionals and pointers map one to one',
  'Reading an enumeration accepts exactly the declared names; an optional or pointer becomes empty exactly for null and otherwise holds the value read; a variant holds exactly the alternative selected by the input. Writing and reading back restores the value for every declared enumerator and alternative.',
  ['inputs'],'all inputs; all values',
  'Acceptance of a non-declared name, a prefix or a wrong alternative is a statement about all other inputs.',
  [CIO+'enum.hxx',CIO+'variant.hxx',J+'compound.hxx',J+'lib/std/optional.hxx',J+'lib/std/variant.hxx'],
  [('enum reader',CIO+'enum.hxx'),('variant dispatch',CIO+'variant.hxx')])
p('J10','The iterator category of the input does not change the result',
  'Reading the same JSON bytes through a pointer range, a forward/bidirectional iterator range or a single-pass input iterator gives the same success or failure and, on success, the same value and number of consumed bytes (with strict numbers for any text, in the default format for text whose numbers are JSON numbers).',
  ['inputs','configurations'],'all inputs; pointer, list and single-pass iterators; strings, numbers, booleans, containers',
  'Separate code paths exist per category; the tests use literals (pointers) almost exclusively.',
  [CIO+'string.hxx',CIO+'numeric.hxx',CIO+'io.hxx',COM+'charconv.hxx'],
  [('category-specific overloads',CIO+'numeric.hxx'),('string tails',CIO+'string.hxx')])
p('J11','Writing JSON into a bounded range never overruns and fails cleanly',
  'Writing a value into a range of any size writes only inside the range; it succeeds exactly when the whole output fits and then the range holds the same bytes as unbounded output, otherwise it reports an output failure. The end of the result is one past the last byte written.',
  ['inputs','configurations'],'all values, all buffer sizes',
  'The tests use a few too-small buffers; every cut position of every kind of value matters.',
  [CIO+'io.hxx','src/cxon/cxon.hxx',COM+'container.hxx'],
  [('poke',CIO+'io.hxx'),('range and back-insert adaptors',COM+'container.hxx')])
p('J12','Format options change only what they name',
  'Comments are skipped exactly where whitespace is allowed and only if enabled, trailing separators are accepted only if enabled, and keys may be unquoted only if enabled; the CXCF dialect reads back what it writes. With the options off such input is rejected.',
  ['inputs','configurations'],'all inputs under each option combination used by JSON and CXCF',
  'Tests check each option on sample documents, not that all other documents are unaffected.',
  [CIO+'io.hxx',CIO+'key.hxx',CIO+'container.hxx',CIO+'class.hxx','src/cxon/cxcf.hxx'],
  [('whitespace and comment consumption',CIO+'io.hxx'),('separators',CIO+'container.hxx')])
p('J13','Pretty printing only adds whitespace',
  'Indenting the compact JSON output of a value inserts only whitespace outside strings: removing it restores the compact text, strings (including escapes) are untouched, and the indented text reads back to the same value. Indenting is idempotent, does not depend on the whitespace of its input or on whether the value is written through the indenter directly, into a bounded range or through a buffer, and fails exactly when the output does not fit.',
  ['inputs','configurations'],'all values; all indentation settings; direct and buffered use',
  'The indenter is a state machine over characters; strings with brackets, quotes and escapes at any nesting matter, tests use one sample.',
  [J+'tidy.hxx'],[('indenting output iterator',J+'tidy.hxx')])
p('J14','Skipping and capturing unknown JSON values consumes exactly one value',
  'Skipping a well-formed JSON value inside an object or a list (declared-skip field or sink) consumes exactly that value, never bytes after it; a capturing sink holds exactly the bytes of the value (a scalar possibly with the whitespace behind it); reading continues correctly behind it, and input that ends before the value does is rejected without being read past its end.',
  ['inputs'],'all inputs: nested arrays/objects, strings with escaped quotes and brackets, scalars',
  'Skipping is bracket counting over arbitrary content; mis-skips need brackets or quotes inside strings at specific nesting.',
  [CIO+'value.hxx',CIO+'class.hxx'],[('value sink',CIO+'value.hxx')])
p('J15','JSON floating-point text and special values are consistent',
  'Infinities and NaNs are written in their documented form (quoted by default, bare identifiers if enabled) and read back to the same kind of value; a floating-point read hands exactly the number token to the converter, reports converter errors, and stores exactly the converted value.',
  ['inputs','configurations'],'all number tokens; special values; converter modelled as any function honouring its contract',
  'The token boundary depends on all characters behind the number; tests use few suffixes.',
  [CIO+'numeric.hxx',COM+'charconv.hxx'],[('floating-point token scan',CIO+'numeric.hxx')])
p('C01','CBOR reading never leaves the input range and never throws',
  'Reading any byte sequence as CBOR into any supported target type accesses only bytes inside the given input range and memory owned by the target, performs no undefined behaviour, terminates and throws nothing of its own; announced lengths larger than the remaining input are rejected without attempting to reserve that much memory.',
  ['inputs'],'all byte sequences, all target types',
  'Heads can announce any of 2^64 lengths at any point of truncation; the tests contain few.',
  [BIO+'io.hxx',C+'common/container.hxx',C+'common/sink.hxx',C+'fundamental.hxx',C+'class.hxx'],
  [('bounded byte input',BIO+'io.hxx'),('length handling',C+'common/container.hxx')])
p('C02','CBOR results: success, error code and end position always agree',
  'A CBOR read result converts to true exactly when its error code is clear; its end always lies inside the input, on success directly behind the item read, and bytes behind the item never influence the result. Truncating a valid item anywhere makes reading fail.',
  ['inputs'],'all inputs and target types','Agreement over all inputs; tests compare single cases.',
  ['src/cxon/cxon.hxx',BIO+'io.hxx',C+'fundamental.hxx',C+'common/container.hxx'],[('interface results','src/cxon/cxon.hxx'),('byte input',BIO+'io.hxx')])
p('C03','CBOR integers are decoded exactly or rejected',
  'Reading a CBOR integer of any encoded width (minimal or not, positive or negative) into an integral type of any width yields exactly the encoded mathematical value, or an error when the value is not representable in the target (an implementation may also reject an encoding wider than the target; 8-bit targets take the two\'s complement byte); reserved additional-information values and truncated items are rejected. The result does not depend on the iterator category.',
  ['inputs'],'all heads, all argument bytes, all integral target types',
  '2^64 arguments times 5 encodings times 8 targets; narrowing errors are at boundaries specific to each pair.',
  [C+'fundamental.hxx',BIO+'io.hxx'],[('integer reader',C+'fundamental.hxx'),('big-endian assembly',BIO+'io.hxx')])
p('C04','CBOR integers, booleans and null are encoded in shortest form and read back',
  'Writing any value of an integral type, boolean or null emits the unique shortest RFC 7049 encoding of that value and reading it back restores the value.',
  ['inputs'],'all values of all integral types','2^64 values; boundaries between encodings for each type.',
  [C+'fundamental.hxx',BIO+'io.hxx',C+'common/container.hxx'],[('integer writer',C+'fundamental.hxx')])
p('C05','CBOR floating-point values are decoded and encoded bit-exactly',
  'Half, single and double precision items decode to exactly the IEEE value they encode (including subnormals, infinities, NaN and signed zero), integers from -2^63 to 2^64-1 read into a floating-point target convert to the nearest value (more negative ones may be rejected, never wrapped), truncated and non-numeric items are rejected, and every float and double written reads back to the same value.',
  ['inputs'],'all 2^16 half, 2^32 single and 2^64 double bit patterns','Bit patterns cannot be enumerated by tests beyond the RFC vectors.',
  [C+'fundamental.hxx',BIO+'io.hxx'],[('half decoding',C+'fundamental.hxx')])
p('C06','CBOR strings and arrays keep their content in every legal form',
  'Reading a byte string, text string or array, definite or indefinite length with any legal head size, yields exactly the encoded elements in order, appended to a growing target; wrong major types, counts exceeding a fixed-size target, truncated content and missing break codes are rejected. Elements must be valid items for the element type. Writing yields a definite-length item of the right major type that reads back to the same content.',
  ['inputs'],'all inputs; strings, byte containers, element containers, fixed arrays, pointers',
  'Combinations of head form, length, chunking and target; tests use the RFC examples.',
  [C+'common/container.hxx',C+'compound.hxx',COM+'container.hxx'],[('array readers',C+'common/container.hxx')])
p('C07','CBOR maps, classes, tuples, variants and bit sets restore their values',
  'Reading a map or class binds every value to exactly its key (independent of order and of definite or indefinite form) and rejects unknown or repeated class keys; tuples and variants are read from definite-length arrays with exactly their element count and a valid alternative index; a bit set becomes exactly the encoded bits, whatever it held before. Writing any such value and reading it back restores it.',
  ['inputs'],'all inputs and values; classes with text and integer keys','Key confusion and stale state need particular key bytes, orders and previous contents.',
  [C+'class.hxx',CIO+'key.hxx',C+'lib/std/bitset.hxx',C+'lib/std/variant.hxx',C+'lib/std/tuple.hxx',C+'lib/std/imp/map.hxx',C+'enum.hxx'],[('field dispatch',C+'class.hxx'),('bit packing',C+'lib/std/bitset.hxx')])
p('C08','CBOR tags are transparent to readers',
  'One well-formed tag in front of a number, string, array, map or class, in any encoded width, leaves the value read unchanged, and malformed or truncated tags are rejected; a value written through the tag interface (taggle) is preceded by exactly its tag in shortest form and reads back with the same tag number and value.',
  ['inputs'],'all tag heads and arguments','Tag numbers range over 2^64 in five encodings.',
  [C+'common/tag.hxx',L+'node.cbor.hxx'],[('tag reader',C+'common/tag.hxx')])
p('C09','Skipping and capturing unknown CBOR items consumes exactly one item',
  'Skipping an item (declared-skip field or sink) consumes exactly one well-formed data item of any kind and nesting, definite or indefinite, and a capturing sink holds exactly the bytes of that item; truncated or malformed items are rejected. (Known deviations, pinned by existing tests: a tag is skipped as an item of its own, and chunks of an indefinite-length string are not restricted to strings.)',
  ['inputs'],'all inputs','Item boundaries depend on arbitrary nested heads; tests skip a few fixed items.',
  [C+'common/sink.hxx'],[('sink',C+'common/sink.hxx')])
p('C10','Writing CBOR into a bounded range never overruns and fails cleanly',
  'Writing a value into a range of any size writes only inside the range; it succeeds exactly when the whole output fits, with the same bytes as unbounded output, and otherwise reports an output failure.',
  ['inputs','configurations'],'all values, all buffer sizes','Every cut position of every multi-byte head matters.',
  [BIO+'io.hxx','src/cxon/cxon.hxx'],[('byte output',BIO+'io.hxx')])
p('N01','Copying, moving, assigning and swapping nodes preserves values',
  'Copying or assigning a polymorphic node yields an equal node and leaves the source unchanged, moving and swapping transfer the value, self-assignment changes nothing, and assigning a node from one of its own children yields that child; no sequence of these operations leaks, double-frees or touches freed memory.',
  ['histories','inputs'],'all pairs of node kinds, all contents, short operation sequences','12x12 kind pairs times operations; tests exercise selected pairs with fixed values.',
  [COM+'node-value.hxx',J+'node/node.hxx',C+'node/node.hxx'],[('storage controller',COM+'node-value.hxx')])
p('N02','Node comparison and hashing are consistent',
  'Node equality is an equivalence, less-than is a strict weak ordering consistent with it for values without NaN, inequality is the negation of equality, and equal nodes have equal hashes.',
  ['inputs'],'all pairs and triples of nodes up to a bounded shape','Laws quantify over pairs and triples of values.',
  [J+'node/node.hxx',C+'node/node.hxx',COM+'hash.hxx'],[('comparison operators',J+'node/node.hxx'),('hash',COM+'hash.hxx')])
p('N03','Nodes represent every document they read, and write it back',
  'Reading a JSON or CBOR document into a node chooses the kind denoted by the input, represents integers exactly whenever they fit 64 bits, and writing the node and reading it again gives an equal node (JSON -0 is the integer 0, and numbers are not JSON integers when written with a fraction or exponent); a value inside fewer containers than the configured recursion depth is accepted, and one inside that many or more is rejected with the recursion error.',
  ['inputs'],'all documents','Integer/real selection changes at exact digit strings; depth and kind are input-dependent.',
  [L+'node.json.hxx',L+'node.cbor.hxx',L+'node.hxx',L+'node.ordered.hxx'],[('node readers',L+'node.json.hxx'),('recursion guard',L+'node.hxx')])
p('O01','Buffered and direct output produce the same bytes',
  'Output through the buffering and range adaptors delivers exactly the bytes written, in order, whatever mix of single characters, repeated characters and blocks is written and wherever buffer boundaries fall.',
  ['inputs','histories'],'all sequences of write operations, all block lengths around the buffer capacity','Boundary arithmetic needs specific fill levels.',
  [COM+'container.hxx'],[('buffered back inserter',COM+'container.hxx')])
p('O02','Memory taken by a reading is returned whole and to its own allocator',
  'Reading into a pointer, a smart pointer, a container or a node, whether it succeeds or fails, leaves no memory or object behind: every object constructed is destroyed once, every block is returned once, to the allocator it came from and with the size it was requested with; an array or text read behind a raw pointer is exactly as large as its content; a container or node whose elements accept an allocator passes its own one on to them, and takes nothing from a default-constructed one.',
  ['inputs','faults'],'all inputs (complete, malformed and cut anywhere), all sizes around the growth of the buffers','Each failing point of a reader has its own clean-up path and each growth step its own size; the standard allocator ignores both sizes and identity, so tests do not see a wrong one.',
  [COM+'allocator.hxx',COM+'container.hxx',C+'compound.hxx',J+'compound.hxx',C+'lib/std/memory.hxx',C+'node/node.hxx'],[('uses-allocator construction',COM+'allocator.hxx'),('growing container behind pointers',COM+'container.hxx')])
if __name__=='__main__':
    d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(d+'/properties.jsonl','w') as f:
        for x in P:
            assert len(x['title'])<=80,(x['id'],len(x['title']))
            for fl in x['anchors']['files']+[m['where'] for m in x['anchors']['mechanism']]:
                assert os.path.exists('/repo/'+fl),fl
            f.write(json.dumps(x)+'\n')
    print(len(P),'properties')
