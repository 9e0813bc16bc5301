#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is claimed iff units/<ID> has harnesses."""
import glob, json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


I = ['inputs']
H = ['histories', 'inputs']

prop('P01', 'Numbers compare by their exact mathematical value',
     'Comparing two numbers (32/64-bit signed or unsigned integers, booleans as 0/1, floats other than NaN), whether in an open file or among values being created, returns -1, 0 or +1 exactly as their mathematical values are ordered, without rounding, wrap-around or truncation. The result is therefore a total order, never fails, and does not modify anything.',
     I, 'all pairs of number types and all bit patterns of both operands (NaN excluded)',
     'the tests compare a few small values; wrong results need mixed signedness at the extremes or integers beyond 2^24 against floats',
     ['src/pointless_cmp.c', 'src/pointless_value.c'],
     [('pointless_cmp_reader_acyclic / pointless_cmp_reader', 'src/pointless_cmp.c'), ('pointless_cmp_create', 'src/pointless_cmp.c'), ('pointless_cmp_int_float', 'src/pointless_cmp.c')],
     'contracts on the three public comparison entry points proved for every bit pattern, one proof per left-operand type; the pointless_t* arguments are not touched by number comparisons (pruned callees are proved unreachable)')

prop('P02', 'Strings compare by code point regardless of storage width',
     'Comparing two zero-terminated strings, in open files or among values being created, stored with 8, 16 or 32 bits per character in any combination, returns the sign of the first differing code point, a proper prefix being smaller and equal sequences being equal. The bounded variants give the same answer for an 8-bit right operand given by length, and no comparison reads past the terminator or the given length.',
     I, 'all string contents, lengths and width combinations',
     'tests use short ASCII words of one width; the mixed-width and bounded variants and code points above 0x7f/0xffff are not sampled',
     ['src/pointless_cmp.c'], [('pointless_cmp_string_*', 'src/pointless_cmp.c')], '')

prop('P03', 'Values that compare equal have equal hashes',
     'Whenever two hashable values of a file or of a value graph under construction compare equal, their hashes are equal, irrespective of how each is stored (number type, string width, bitvector encoding, vector element type). Excluded are 64-bit integers, which have no 32-bit equivalent, against floats.',
     I, 'all pairs of hashable values and their storage forms',
     'tests hash a few equal pairs; breaking one encoding needs a specific length or type combination',
     ['src/pointless_hash.c', 'src/pointless_cmp.c', 'src/pointless_bitvector.c'], [('pointless_hash_reader_32 / pointless_hash_create_32', 'src/pointless_hash.c'), ('pointless_cmp_reader', 'src/pointless_cmp.c')], '')

prop('P04', 'Bitvectors are stored losslessly in every encoding',
     'A bitvector of any length given to the creator reads back, from whichever of its six storage forms was chosen, with the same number of bits and the same value for every bit. Equal bitvectors given twice share one stored value.',
     I, 'all bit patterns and lengths, hence all encoding choices',
     'tests use random vectors, so run-length and packed encodings at their length limits are rarely hit',
     ['src/pointless_bitvector.c', 'src/pointless_create.c', 'src/bitutils.c'], [('pointless_bitvector_compressed / pointless_bitvector_is_set / pointless_bitvector_n_bits', 'src/pointless_bitvector.c'), ('pointless_create_bitvector', 'src/pointless_create.c')], '')

prop('P05', 'Bitvector comparison and hash depend only on the bits',
     'Comparing two stored bitvectors gives 0 exactly when they have the same bits, is antisymmetric, and orders by the bits lexicographically and then by length, whichever encodings are used for the two operands. The hash of a bitvector is the same for every encoding of the same bits.',
     I, 'all pairs of bitvectors in all pairs of encodings',
     'each bit sequence normally has one canonical encoding, so mixed pairs (file against buffer) are hardly exercised',
     ['src/pointless_bitvector.c'], [('pointless_bitvector_cmp_buffer_buffer / pointless_bitvector_hash_buffer_32', 'src/pointless_bitvector.c')], '')

prop('P06', 'Choosing a narrower integer vector type never changes a value',
     'A vector of integers written with compression reads back element by element equal to what was added: the element type chosen can represent every element, and each stored element equals the original. Vectors with elements that fit no common integer type are stored unchanged.',
     I, 'all vectors of integers of any length',
     'the choice depends on the minimum and maximum only, boundary values of each width need to be tried in every position',
     ['src/pointless_create.c'], [('pointless_create_vector_compression', 'src/pointless_create.c'), ('vector serialization', 'src/pointless_create.c')], '')

prop('P07', 'Vector elements are read with the type and value stored',
     'Reading element i of a vector in a file, whatever its element type, yields exactly the stored element: full sign, width and type, and the right position.',
     I, 'all element types, all indices, all stored bit patterns',
     'tests read small positive values; sign- and zero-extension and 64-bit elements need extreme values',
     ['src/pointless_reader.c', 'include/pointless/pointless_reader_utils.h', 'src/pointless_value.c'], [('pointless_reader_vector_value_case', 'src/pointless_reader.c'), ('pointless_complete_value_*', 'src/pointless_value.c')], '')

prop('P08', 'A populated hash table finds every key and no other',
     'After a set or map with distinct keys has been laid out, probing with a stored key finds exactly that key and its value, probing with any other key finds nothing, and both always terminate, for every choice of hash values including full collisions. The table has a power-of-two number of buckets with at least one of them empty, and each key is stored exactly once.',
     I, 'all key sets and all hash value assignments',
     'tests use well-distributed hashes; colliding sequences and wrap-around are rare',
     ['src/pointless_hash_table.c', 'src/bitutils.c'], [('pointless_hash_table_populate / pointless_hash_table_probe', 'src/pointless_hash_table.c'), ('pointless_hash_compute_n_buckets', 'src/pointless_hash_table.c')], '')

prop('P09', 'Iterating a set or map yields each entry exactly once',
     'Iterating over a stored set or map, or over the keys with a given hash, visits every stored entry exactly once, skips empty buckets, pairs each key with its own value, and terminates.',
     I, 'all table contents',
     'an iterator error at the last bucket or with adjacent empty buckets depends on the hash layout',
     ['src/pointless_reader.c', 'src/pointless_hash_table.c'], [('pointless_reader_set_iter / pointless_reader_map_iter / pointless_reader_set_iter_hash / pointless_reader_map_iter_hash', 'src/pointless_reader.c'), ('pointless_hash_table_probe_hash', 'src/pointless_hash_table.c')], '')

prop('P10', 'Only well-formed hash tables pass validation',
     'If validation accepts a stored set or map, its vectors have equal, power-of-two lengths fitting the number of items, every non-empty bucket holds a key whose hash is the stored hash and which a probe finds at that bucket, and the number of non-empty buckets is the number of items. Tables written by the creator are always accepted.',
     I, 'all table contents and headers of untrusted files',
     'tests only open valid files',
     ['src/pointless_validate_hash_table.c', 'src/pointless_hash_table.c', 'src/pointless_validate.c'], [('pointless_hash_table_validate', 'src/pointless_validate_hash_table.c')], '')

prop('P11', 'Opening a file accepts only headers that fit inside it',
     'Opening any byte sequence never reads outside it. If the header is accepted, every offset table lies inside the file and the heap begins where they end; a sequence too short or with an unsupported version is refused with an error.',
     I, 'all byte sequences of all lengths',
     'tests only open files the library wrote',
     ['src/pointless_reader.c'], [('pointless_init', 'src/pointless_reader.c')], '')

prop('P12', 'Validated heap values lie entirely inside the file',
     'Validation of a reference accepts it only if its index is below the number of such objects, and validation of a string, vector, bitvector, set or map accepts it only if all bytes later read for it (header, elements, terminator) lie inside the heap, with no arithmetic wrap-around in the decision. Checking itself reads only inside the heap.',
     I, 'all file contents, offsets and lengths',
     'tests never feed corrupted files; wrap-around needs crafted offsets or counts',
     ['src/pointless_validate_heap.c', 'src/pointless_validate_heap_ref.c', 'src/pointless_validate.c'], [('pointless_validate_heap_value', 'src/pointless_validate_heap.c'), ('pointless_validate_heap_ref', 'src/pointless_validate_heap_ref.c')], '')

prop('P14', 'Dynamic arrays behave as sequences',
     'Every operation on a dynamic array (push, bulk push, pop, clear, swap, element access, give-away of the buffer) has exactly the effect of the same operation on a sequence: other elements keep their values and order, the count is exact, and memory is never accessed outside the allocation. A push that cannot get memory or would overflow the count fails and leaves the array as it was.',
     H, 'all sequences of operations, element sizes, and allocation failures',
     'tests never fail an allocation and never exceed a few growth steps',
     ['src/pointless_dynarray.c', 'src/pointless_malloc.c'], [('pointless_dynarray_push and the other operations', 'src/pointless_dynarray.c')], '')

prop('P15', 'Sorting yields an ordered permutation or reports the error',
     'The sort routine, given any consistent ordering, finishes and leaves an ordered permutation of the elements, using only comparisons and swaps of indices inside the range. It reports failure exactly when the comparison reported an error; it then stops, with all indices still in range and whatever answers the comparison gave.',
     I, 'all element orders, lengths and failure points',
     'tests sort a few random arrays; quicksort partition errors need particular duplicates patterns',
     ['src/custom_sort.c'], [('bentley_sort_', 'src/custom_sort.c')], '')

prop('P16', 'Integer operations detect every overflow',
     'Each checked integer operation (construction, addition and multiplication on unsigned 32-bit, 64-bit and size values) returns the exact mathematical result, and flags overflow exactly when that result is not representable or an operand was already flagged.',
     I, 'all operand values',
     'the operand space is 2^64 per operation; tests do not call most of these',
     ['src/pointless_int_ops.c', 'include/pointless/pointless_int_ops.h'], [('intop_*', 'src/pointless_int_ops.c')], '')

prop('P17', 'Integer expressions evaluate to their exact value or fail',
     'Evaluating an integer expression over constants and + - * / with parentheses yields its exact mathematical value (integer division, operators left-associative with the usual precedence) or fails when an intermediate result is negative or too large, a divisor is zero, or the text is malformed. No text makes it read or write outside its buffers or fail to terminate.',
     I, 'all expression texts',
     'no test evaluates expressions beyond what the library needs internally',
     ['src/pointless_int_ops.c'], [('intop_u64_eval_* / intop_eval', 'src/pointless_int_ops.c')], '')

prop('P18', 'Path lookups navigate to exactly the named element',
     'Evaluating a path of keys and indices against a file yields the element reached by looking up each step in turn, or fails without changing the result when any step does not exist, is out of bounds or does not apply to the container at hand.',
     I, 'all paths and all container contents', 'no test uses the path evaluator',
     ['src/pointless_eval.c'], [('pointless_eval_get / pointless_eval', 'src/pointless_eval.c')], '',
     na='the path evaluator parses formats with variable arguments, which CBMC contracts do not support (va_arg inside the enforced function), and is not reachable from the Python API')

prop('P20', 'String width conversions preserve code points',
     'Converting a string between 8-, 16- and 32-bit characters yields the same sequence of code points with a terminator, in memory of its own (an 8-bit string holds code points up to 0xff); length functions return the number of characters before the terminator; a conversion to a narrower width is refused, or not offered, exactly when a character does not fit.',
     I, 'all string contents and lengths', 'tests convert ASCII text mostly',
     ['src/pointless_unicode_utils.c'], [('pointless_unicode_* / pointless_ucs4_* conversions', 'src/pointless_unicode_utils.c')], '')

prop('P21', 'Inline values keep type and payload through conversions',
     'A number, boolean, null or empty-slot value constructed, converted between its reader, complete and creation forms, or read back as C value has exactly the given type and payload, and 64-bit integers keep all bits.',
     I, 'all types and all payload bits', 'tests see only a few payloads',
     ['src/pointless_value.c'], [('pointless_value_create_* / pointless_value_to_complete / getters', 'src/pointless_value.c')], '')

prop('P22', 'Writing a file is all-or-nothing',
     'Writing a value graph to a file either succeeds with the complete contents flushed, synced and closed before the final atomic rename to the given name, or fails, leaving any previous file of that name untouched and removing its temporary file. This holds whichever system call fails, and at whichever call.',
     ['fault_sequences', 'crash_points'], 'every single failure point of open, write, flush, sync, close and rename',
     'tests never inject I/O failures',
     ['src/pointless_create.c'], [('pointless_create_output_and_end_f', 'src/pointless_create.c')], '')

prop('P23', 'What is written is what is read back',
     'Any value graph built with the creation functions (numbers, strings, bitvectors, vectors, sets, maps, nested, shared or cyclic) and written to a buffer is accepted when opened and reads back as an equal graph: same types of values, same elements in the same order, same set members and map entries. Keys that are not equal to themselves (NaN, also inside a vector key) are refused when writing.',
     I, 'all value graphs', 'tests round-trip a fixed family of graphs',
     ['src/pointless_create.c', 'src/pointless_reader.c', 'src/pointless_validate.c'], [('pointless_create_* and pointless_serialize', 'src/pointless_create.c'), ('pointless_open_*', 'src/pointless_reader.c')], '')

prop('P25', 'Key lookups find exactly the stored entry',
     'The lookup functions (has-key and get-value by string, unicode string, integer or other key) on a stored set or map succeed exactly when an equal key of the kind looked up is stored, and return the value stored for it (an integer lookup concerns keys stored as integers, not booleans or floats of the same value).',
     I, 'all stored maps and all lookup keys', 'tests look up the keys they stored, of the type they stored',
     ['src/pointless_reader_helpers.c', 'src/pointless_reader.c', 'src/pointless_hash_table.c'], [('pointless_get_map_* / pointless_get_set_*', 'src/pointless_reader_helpers.c'), ('pointless_reader_map_lookup / pointless_reader_set_lookup', 'src/pointless_reader.c')], '')

prop('P27', 'Typed primitive vectors accept exactly the numbers of their type',
     'Assigning or appending a Python number to a typed primitive vector stores exactly that number when it is an integer in the range of the element type (for float vectors: a float, converted to single precision), and otherwise raises and leaves the vector unchanged. Reading an item gives back the stored number.',
     I, 'all type codes and all Python integers and floats', 'tests probe the range limits of some types with some operations only',
     ['python/pointless_prim_vector.c'], [('number parsing and append/assign', 'python/pointless_prim_vector.c')],
     'contracts on the conversion functions against a model of the CPython calls they make (lib/py.h); the operations are also run on random numbers under ASan')

prop('P28', 'Typed primitive vectors behave like Python lists',
     'Any sequence of operations on a typed primitive vector (append, append_bulk, pop, pop_bulk, remove, index, fast_remove, clear, min, max, range, item access and assignment, slices of step 1, iteration, comparison, buffer export, sort, sort_proj, serialize) gives the results and leaves the contents that the same operations give on a Python list of the same numbers, and raises when the list operation would; deleting items is refused. A vector with an exported buffer refuses to change size.',
     H, 'all operation sequences', 'tests run each operation in isolation on small vectors',
     ['python/pointless_prim_vector.c', 'src/pointless_dynarray.c'], [('PyPointlessPrimVector methods', 'python/pointless_prim_vector.c')],
     'contracts on the operations for vectors of any length and contents, one proof per element type, against a model of the CPython calls (lib/py.h); sorting and serialization are run natively only')

prop('P29', 'Python bitvectors behave like lists of booleans',
     'Any sequence of operations on a Python bitvector (creation from a size or sequence, append, append_bulk, extend_true, extend_false, pop, item access and assignment, copy, iteration, comparison, hash, and the queries NumZeroPostfix, NumOnePrefix and the like, and IsAnySet) gives the results, and leaves the bits, that the same operations give on a list of booleans; a stored bitvector gives the same answers and refuses to be changed; deleting items is refused.',
     H, 'all operation sequences', 'tests do not interleave the operations with counting queries',
     ['python/pointless_bitvector.c'], [('PyPointlessBitvector methods', 'python/pointless_bitvector.c')],
     'contracts on the operations for bitvectors of any length and contents, against a model of the CPython calls (lib/py.h); random histories run natively under ASan')

prop('P30', 'Indexing and slicing stored vectors match Python lists',
     'For every stored vector, slice of it and slice of a slice (bounds as for lists, step 1; other steps are refused), the Python view has the length, items, forward and reverse iteration, membership (of values other than sets and maps) and comparison results of a Python list of the same values, and min, max, range and, when sorted, bisect_left where the vector is typed; an index raises IndexError exactly when the list does. A typed view exports its own items as a read-only buffer, and a view serialized again is written as its own items.',
     I, 'all vectors, indices and slices', 'tests use a few slices',
     ['python/pointless_vector.c'], [('PyPointlessVector subscript, slice, iteration and comparison', 'python/pointless_vector.c')],
     'contracts on the methods for views of any size, one proof per element type where it matters, against a model of the CPython calls (lib/py.h); random vectors and slices run natively under ASan')

prop('P31', 'Python-side hash and comparison agree with stored values',
     'For any value that can be serialized, the module\'s hash of the Python object (where it offers one: not for sets, maps or integers beyond 32 bits) equals that of the stored value, and the module\'s comparison of any mix of Python objects and stored values gives the same result as for the two stored values; values of different kinds, sets and maps, and typed primitive vectors and bytearrays that are not stored, are refused by comparison, and values of different kinds are unequal for membership tests and key lookups.',
     I, 'all pairs of supported values in both representations', 'tests compare a fixed list of values',
     ['python/pointless_pyobject_cmp.c', 'python/pointless_pyobject_hash.c', 'src/pointless_cmp.c', 'src/pointless_hash.c'], [('pypointless_cmp / pyobject_hash_32', 'python/pointless_pyobject_cmp.c')],
     'contracts on the dispatching functions; random pairs run natively under ASan')

prop('P32', 'Python values survive being written and read',
     'A Python value made of None, booleans, integers from -2**31 to 2**32-1, floats (kept to single precision), strings without zero code points, lists, tuples, dicts, sets, bytearrays, typed primitive vectors, bitvectors and stored values, nested and shared in any way, is written by serialize, serialize_to_buffer and serialize_to_bytearray and read back with equal items, keys and characters, whatever the unwiden_strings and normalize_bitvector options; objects that appear twice, and lists and dicts that contain themselves, keep that shape. Keys or members that become equal when written, and nestings deeper than 127 levels, may be refused. Anything else raises, and writes nothing.',
     I, 'all nestings of all supported values', 'tests write a fixed list of values and mostly ASCII strings',
     ['python/pointless_create.c', 'python/pointless_instance_dispatch.c', 'src/pointless_recreate.c'], [('pointless_export_py_rec', 'python/pointless_create.c'), ('pypointless_value', 'python/pointless_instance_dispatch.c'), ('pointless_recreate_convert_rec', 'src/pointless_recreate.c')],
     'contracts on the exporting, converting and re-creating functions, one step of the recursion each; random values run natively under ASan')

prop('P34', 'Python map and set views behave like dict and set',
     'A stored set or map read from Python has the length, members, iteration, items, keys, values, lookups (get, item access, has-key, membership) of the Python set or dict that was written, for every key, present or absent, of any kind that can be compared (see P31); a missing key gives KeyError, False or the default as for a dict, and an unhashable key raises.',
     I, 'all stored maps and sets and all keys', 'tests look up the keys they stored',
     ['python/pointless_map.c', 'python/pointless_set.c'], [('PyPointlessMap and PyPointlessSet methods', 'python/pointless_map.c')],
     'contracts on the methods against a model of the CPython calls and the lookup contracts of property P25; random maps and sets run natively under ASan')

prop('P13', 'The cycle analysis marks exactly the containers on a cycle',
     'The cycle analysis assigns every container of a file that can reach itself to a cycle and no other, for every reference graph.',
     I, 'all reference graphs', 'tests use a few hand-made cycles',
     ['src/pointless_cycle_marker.c'], [('pointless_cycle_marker', 'src/pointless_cycle_marker.c')], '',
     na='strong connectivity of an arbitrary graph is an inductive whole-graph property over recursive calls and Judy arrays; CBMC contracts have no reachability predicate to state it; the defect found while reading it is fixed (see known_findings.txt)')

prop('P33', 'Readers may share an open file between threads',
     'Concurrent read-only use of one open file gives the same results as sequential use.',
     ['schedules'], 'all interleavings', 'tests are single-threaded',
     ['src/pointless_reader.c'], [('no mutable state in pointless_t after opening', 'src/pointless_reader.c')], '',
     na='the verifier family has no thread support (CBMC function contracts are sequential)')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
    hooks = [h for h in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()]
    m = dict(version=1, setup_cmd='sh lib/setup.sh', hooks=dict(guard='POINTLESS_PTV', enable='-DPOINTLESS_PTV given by lib/ptv.py to goto-cc (contracts jobs with loop contracts)', source_commits=hooks), checks=[], not_applicable=[],
             notes='contract-based deductive verification with CBMC 6.11 (dfcc contracts); see DESIGN.md')
    lv = json.load(open(os.path.join(V, 'levels.json'))) if os.path.exists(os.path.join(V, 'levels.json')) else {}
    for p in sorted(P, key=lambda p: p['id']):
        have = glob.glob(os.path.join(V, 'units', p['id'], '*.c')) + glob.glob(os.path.join(V, 'units', p['id'], '*.py'))
        if have:
            l = lv.get(p['id'], 'proof')
            m['checks'].append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
                                    technique='deductive verification of C function contracts (CBMC dfcc)', level=l, level_note=p['note'] or 'see DESIGN.md'))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'not built yet'))
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
