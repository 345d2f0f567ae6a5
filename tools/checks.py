"""The harness runs that decide each property."""
ASSUMPTIONS = [
  'clang 18 lowers the C++ sources to LLVM IR correctly (x86-64, little endian); the engine (engine/symex.cpp) interprets that IR; Z3 4.8.12 decides the queries. Sampled paths and every counterexample are replayed on natively compiled code.',
  'memory model: separate objects, byte granular, every out-of-bounds, dangling or null access, uninitialised value reaching a branch, address or checked result, signed overflow, oversized shift, invalid bool and unreachable is a violation',
]
Q = ('quick', 'thorough'); T = ('thorough',); QO = ('quick',)
NEW = ['OneMore', 'OptMore', 'Names', 'Fwd', 'Deep', 'TOuter', 'TCap', 'TopPlain', 'b_c_Abc', 'Far', 'Shade', 'Ali', 'Wide', 'Node', 'Lead']
def J(entry, **k): return dict(entry=entry, **k)
BIG = ['Scalars', 'Tags', 'Opts', 'Opts40', 'Strs', 'StrBig', 'RepBig', 'RepMsg', 'Inner', 'Nest', 'One', 'HasNothing', 'RepStr', 'TNest'] + NEW
def shards(entry, n, **k):
    p = k.pop('params', {})
    return [J(entry, params=dict(p, nsh=n, sh=i), **k) for i in range(n)]
CORPUS = 'schema corpus schemas/*.proto (every scalar type, tags of 1 to 5 bytes, optional, oneof, repeated, nested, templated and empty messages), generated by the current generator'
OUT_SCHEMA = 'schemas outside the corpus; a big-endian target'
TWO = 'two fields of a message arbitrary at a time (any value; strings/arrays of every length up to capacity; for capacities above 8 the lengths 0,1,2,63,64,126..130,139,140,255..257,299,300 with one arbitrary element), the other fields all unset or all set to fixed values (quick: neighbouring fields; thorough: every pair of fields and every length); the Mini* messages with all fields arbitrary at once; '
ANY = 'every byte string of up to n bytes (quick n = 6 or 7, thorough n = 8 or 9) for the Mini* messages, into a fresh or a filled message; for every other message: one record of any field with every varint length, arbitrary value bytes, over-long tags and lengths, preceded or followed by a fixed record of another field, into a fresh or filled message; '
CHECKS = {}
# ---- encoding side: C01 C02 C07 C08
def enc(reps_shards, all_extra=(), deep=True):
    js = [J('h_' + m, cost=5) for m in BIG + ['MiniMsg']] + shards('h_Reps', reps_shards, cost=10) + [J('h_all_' + m) for m in ('Mini', 'MiniStr', 'MiniRep', 'MiniOne')]
    if deep:
        for m, n in (('Scalars', 14), ('Tags', 9), ('Opts', 13), ('Strs', 4), ('RepMsg', 4), ('Inner', 3), ('Nest', 5), ('One', 13), ('HasNothing', 5), ('RepStr', 2), ('TNest', 5), ('Reps', 14)) + tuple((m, 4) for m in NEW):
            js += shards('h_' + m, n, params={'deep': 1}, tiers=T, cost=30, optional=True)
        js += [J('h_all_MiniMsg', tiers=T, cost=100, optional=True)]
    return js + list(all_extra)
CHECKS['C01'] = dict(bounds=TWO + CORPUS, outside=OUT_SCHEMA + '; three or more simultaneously arbitrary fields in the large messages',
  jobs=enc(7, [J('h_all_Nothing')]))
CHECKS['C02'] = dict(bounds=TWO + CORPUS, outside=CHECKS['C01']['outside'], jobs=enc(7))
CHECKS['C07'] = dict(bounds=TWO + CORPUS, outside=CHECKS['C01']['outside'], jobs=enc(7))
CHECKS['C08'] = dict(bounds=TWO + 'write buffer capacities 0, 1, half, needed-2 .. needed+2 (Mini* and thorough: every capacity from 0 to needed+2), and the library\'s WriteBufferFixedSize of 5..12 bytes with 0..2 bytes already in it; ' + CORPUS, outside=CHECKS['C01']['outside'],
  jobs=enc(14, [J('h_fix_' + m, covers=['checked', 'fits', 'full']) for m in ('Mini6', 'Mini12', 'MiniStr5', 'MiniOne8', 'MiniRep10')]))
# ---- decoding side: C03 C04 C05 C06
def dec(entry_extra, n, tn, allc):
    js = [J('h_' + m, cost=5) for m in BIG + ['MiniMsg', 'MiniOne']] + shards('h_Reps', 7, cost=8)
    for m in ('Mini', 'MiniStr', 'MiniRep', 'MiniMsg', 'MiniOne', 'Nothing'):
        k = n[m]
        js += [J('h_all_' + m, params={'n': i}, covers=allc if i >= 2 else []) for i in (0, 1, 2, 3, 4, 5, k)] + [J('h_all_' + m, params={'n': k, 'filled': 1}, cost=3, covers=allc)]
        js += [J('h_all_' + m, params={'n': tn[m], 'wt': w, 'filled': f}, tiers=T, cost=40, covers=[], optional=True) for w in range(8) for f in (0, 1)]
    js += [J('h_' + m, params={'deep': 1}, tiers=T, cost=60, optional=True) for m in BIG + ['MiniMsg', 'MiniOne']] + shards('h_Reps', 14, params={'deep': 1}, tiers=T, cost=60, optional=True)
    return js + entry_extra
N1 = {'Mini': 7, 'MiniStr': 7, 'MiniRep': 7, 'MiniMsg': 6, 'MiniOne': 6, 'Nothing': 7}; N2 = {'Mini': 9, 'MiniStr': 9, 'MiniRep': 8, 'MiniMsg': 8, 'MiniOne': 8, 'Nothing': 9}
CHECKS['C03'] = dict(bounds=ANY + CORPUS, outside=OUT_SCHEMA + '; unpacked encoding of repeated scalars (the library accepts only packed); uint32 and enum varints above 5 bytes (refused, see C05)', jobs=dec([], N1, N2, ['checked']))
CHECKS['C04'] = dict(bounds=ANY + 'from a user buffer and from ReadBufferFixedSize; ' + CORPUS, outside=OUT_SCHEMA, jobs=dec([J('h_all_' + m, params={'n': N1[m], 'fixed': 1}, cost=3, covers=['checked', 'accepted', 'refused']) for m in ('Mini', 'MiniStr', 'MiniRep', 'MiniMsg', 'MiniOne')], N1, N2, ['checked']))
CHECKS['C04']['jobs'] += [J('h_wrap_' + m, cost=50, covers=['checked', 'refused'] if m != 'Nothing' else ['checked']) for m in ('Mini', 'MiniStr', 'MiniRep', 'MiniMsg', 'MiniOne', 'Nothing', 'RepMsg', 'RepStr', 'Inner')]; CHECKS['C04']['bounds'] += '; announced lengths within 20 of 2^32 and 2^31'
CHECKS['C05'] = dict(bounds=ANY + 'every truncation point and every malformation: wrong wire type, over-long varint, length prefix larger or smaller than the content or any 5-byte value, too many elements or characters, field number zero; ' + CORPUS, outside=OUT_SCHEMA + '; which error is reported when one input is malformed in two ways at once', jobs=dec([J('h_tag_' + m) for m in ('Mini', 'Scalars', 'Nothing')], N1, N2, ['checked']))
CHECKS['C06'] = dict(bounds='one unknown field with an arbitrary tag (any number not in the schema, minimal or over-long), of each wire type 0, 1, 2, 5, with arbitrary varint of 1..10 bytes, arbitrary payload of 0..4 (also 127, 128, 300) bytes, before, between or after two records of known fields, at top level or inside a submessage, into a fresh or filled message; read from a user buffer and from ReadBufferFixedSize; ' + CORPUS, outside=OUT_SCHEMA,
  jobs=[J('h_' + m, cost=20 if m == 'Opts40' else 3) for m in ('Scalars', 'Tags', 'Opts', 'Strs', 'Reps', 'RepMsg', 'Inner', 'Nest', 'One', 'HasNothing', 'RepStr', 'TNest', 'MiniMsg', 'MiniOne', 'Mini', 'Nothing', 'Opts40') + tuple(NEW)] + [J('h_in_' + m) for m in ('Inner', 'Nest', 'One', 'RepMsg', 'HasNothing', 'TNest', 'MiniMsg', 'OptMore', 'Fwd', 'Deep', 'TOuter', 'TCap', 'TopPlain', 'b_c_Abc', 'Far', 'Shade', 'Node', 'Wide')]
    + [J('h_' + m, params={'fixed': 1}) for m in ('Scalars', 'RepMsg', 'Nest', 'One', 'MiniMsg')] + [J('h_in_' + m, params={'fixed': 1}) for m in ('Inner', 'One', 'MiniMsg')]
    + [J('h_' + m, params={'deep': 1}, tiers=T, cost=50, optional=True) for m in ('Scalars', 'Tags', 'Opts', 'Strs', 'Reps', 'RepMsg', 'Inner', 'Nest', 'One', 'HasNothing', 'RepStr', 'TNest', 'MiniMsg', 'MiniOne', 'Mini')] + [J('h_in_' + m, params={'deep': 1}, tiers=T, cost=50, optional=True) for m in ('Inner', 'Nest', 'One', 'RepMsg', 'TNest', 'MiniMsg')])
# ---- histories: C09 C10
CHECKS['C09'] = dict(bounds='every history of two operations (thorough: three) from a fresh message and of two from a filled one, over set (by value, by reference, through the mutable accessor), mutable access, clear of a member, reception of a member, failed reception, clear(), assignment, on every member, with arbitrary values; then serialization; messages MiniOne, One (two oneofs), OneMore (three oneofs), HasNothing, TNest, Names, Deep, TCap', outside=OUT_SCHEMA + '; longer histories',
  jobs=[J('h2_' + m, cost=5) for m in ('MiniOne', 'One', 'HasNothing', 'TNest', 'OneMore', 'Names', 'Deep', 'TCap', 'b_c_Abc', 'Shade', 'Wide', 'Lead')] + [J('h2p_' + m, cost=3) for m in ('MiniOne', 'HasNothing', 'TNest', 'OneMore', 'Names', 'Deep', 'TCap', 'b_c_Abc', 'Shade', 'Wide', 'Lead')] + [J('h2p_One', params={'op': o}, cost=8) for o in range(7)]
    + [J('h3_MiniOne', params={'op': o}, cost=8) for o in range(7)]
    + [J('h3_' + m, params={'op': o}, tiers=T, cost=100, optional=True) for m in ('One', 'HasNothing', 'TNest') for o in range(7)] + [J('h2_' + m, params={'deep': 1}, tiers=T, cost=50, optional=True) for m in ('MiniOne', 'One', 'HasNothing', 'TNest')])
CHECKS['C10'] = dict(bounds='every history of one and two operations (thorough: three for the small messages) from a fresh and from a filled message: set, mutable access, clear of a field, reception, failed reception, clear(), assignment, on every field with arbitrary values; then serialization; messages Opts (12 optional types), Opts40 (second field: same, next, +8, +32), MiniStr, HasNothing, Nest, TNest, OptMore, Names, Deep, TCap', outside=OUT_SCHEMA + '; longer histories',
  jobs=[J('h1_' + m) for m in ('Opts', 'Opts40', 'Opts70', 'Opts33', 'Nest', 'TNest')] + shards('h2_Opts', 5, cost=10) + shards('h2_Opts40', 5, cost=10) + [J('h2_' + m, cost=4) for m in ('MiniStr', 'HasNothing', 'Nest', 'TNest', 'OptMore', 'Names', 'Deep', 'TCap', 'TopPlain', 'Ali', 'Wide')]
    + [J('h3_MiniStr', cost=5)] + shards('h3_HasNothing', 5, tiers=T, cost=40, optional=True) + shards('h3_Nest', 5, tiers=T, cost=60, optional=True) + shards('h3_TNest', 5, tiers=T, cost=60, optional=True) + shards('h2_Opts', 13, params={'deep': 1}, tiers=T, cost=60, optional=True))
# ---- values: C11 C12
ALLM = ['Scalars', 'Tags', 'Opts', 'Opts40', 'Strs', 'StrBig', 'Reps', 'RepBig', 'RepMsg', 'Inner', 'Nest', 'One', 'HasNothing', 'RepStr', 'TNest', 'MiniMsg', 'MiniOne', 'MiniStr', 'MiniRep'] + NEW
CHECKS['C11'] = dict(bounds='source and target: ' + TWO + 'copy construction, copy and move-style assignment (also to itself), and field-level assignment between string, bytes and repeated fields of smaller, equal and larger capacity; ' + CORPUS, outside=CHECKS['C01']['outside'],
  jobs=[J('h_' + m, cost=3) for m in ALLM + ['Nothing']] + [J('h_tw_' + m, cost=3) for m in ALLM + ['Nothing']] + [J('h_%s_%s' % (a, b)) for a in ('str', 'byt') for b in ('same', 'smaller', 'larger')] + [J('h_rep_' + t) for t in ('i32', 'u64', 'bool', 'str', 'msg')]
    + [J('h_' + m, params={'deep': 1}, tiers=T, cost=30, optional=True) for m in ALLM] + [J('h_tw_' + m, params={'deep': 1}, tiers=T, cost=30, optional=True) for m in ALLM])
CHECKS['C12'] = dict(bounds='state before: ' + TWO + 'then clear() or clear of one field, then every field compared, serialization, and reception of an arbitrary record of an arbitrary field (quick: well formed; thorough: any); ' + CORPUS, outside=CHECKS['C01']['outside'],
  jobs=[J('h_' + m, cost=2) for m in ALLM + ['Mini']] + [J('h_f_' + m, cost=2) for m in ALLM + ['Mini']]
    + [j for m in ALLM for j in shards('h_' + m, 5 if m == 'Reps' else 2, params={'deep': 1}, tiers=T, cost=30, optional=True)] + [J('h_f_' + m, params={'deep': 1}, tiers=T, cost=30, optional=True) for m in ALLM])
# ---- containers: C13 C14
CHECKS['C13'] = dict(bounds='every history of 3 (thorough: 4, 5 for capacity 1) operations on string and bytes fields of capacity 4 and 1: set with any length (any 32-bit length above the maximum), C-string assignment of any text and of null, get/operator[] write at any 32-bit index, clear, assignment from a larger field, copy, reception of any content, serialization; checked and unchecked reads at any 32-bit index afterwards; capacity 300 with boundary lengths', outside='other capacities; longer histories',
  jobs=[J('h_str', params={'op': o}, cost=4, covers=['checked', 'inside', 'outside']) for o in range(12)] + [J('h_byt', params={'op': o}, cost=4, covers=['checked', 'inside', 'outside']) for o in range(12) if o not in (2, 3, 4)] + [J('h_str1'), J('h_byt1'), J('h_big')]
    + [J(e, params={'op': o, 'steps': 4, 'each': 1}, tiers=T, cost=40, optional=True) for e in ('h_str', 'h_byt') for o in range(12) if e == 'h_str' or o not in (2, 3, 4)] + [J(e, params={'op': o, 'steps': 5}, tiers=T, cost=40, optional=True) for e in ('h_str1', 'h_byt1') for o in range(12) if e == 'h_str1' or o not in (2, 3, 4)])
C14E = ['i32', 'u64', 'bool', 'str', 'byt', 'msg']
CHECKS['C14'] = dict(bounds='every history of 3 (thorough: 4) operations on repeated fields of int32, uint64, bool, string, bytes and message, capacity 3, capacity 1, and inside a message, with arbitrary element values, any 32-bit index and length', outside='other capacities; longer histories',
  jobs=[J('h_' + e, params={'op': o}, cost=3) for e in C14E for o in range(9)] + [J('h_one'), J('h_inmsg')]
    + [J('h_' + e, params={'op': o, 'steps': 4}, tiers=T, cost=40, optional=True) for e in C14E + ['one', 'inmsg'] for o in range(9)])
# ---- buffers: C15 C16 C17
CHECKS['C15'] = dict(bounds='every history of 5 (thorough: 6 and 7) operations on ReadBufferFixedSize of 1, 2 and 4 bytes with arbitrary bytes and arbitrary 32-bit counts', outside='other capacities; longer histories',
  jobs=[J('h_' + e, params={'steps': 5, 'op': o}, cost=2) for e in '24' for o in range(8)] + [J('h_1', params={'steps': 5})] + [J('h_' + e, params={'steps': s, 'op': o}, tiers=T, cost=30, optional=True) for e in '124' for s in (6, 7) for o in range(8)])
CHECKS['C16'] = dict(bounds='every history of 5 (thorough: 6 and 7) operations on WriteBufferFixedSize of 1, 4 and 7 bytes with arbitrary bytes and arbitrary 32-bit lengths; the size calculator likewise', outside='other capacities; longer histories; more than 2^32-1 bytes counted',
  jobs=[J('h_' + e, params={'steps': 5}, cost=2, covers=['checked', 'full']) for e in '147'] + [J('h_size', params={'steps': 5})] + [J('h_' + e, params={'steps': s, 'op': o}, tiers=T, cost=30, optional=True, covers=['checked']) for e in ('1', '4', '7', 'size') for s in (6, 7) for o in range(5)])
C17M = ['MiniMsg', 'MiniRep', 'MiniStr', 'MiniOne', 'Strs', 'RepMsg', 'Inner', 'Nest', 'One', 'HasNothing', 'TNest', 'RepStr', 'Reps', 'Opts', 'Tags'] + NEW; C17M = [m for m in C17M if m != 'Lead']
CHECKS['C17'] = dict(bounds='every history of 3 (thorough: 4, 5) operations on a section (and a section of a section) of any 32-bit length over a user buffer and over ReadBufferFixedSize with arbitrary bytes; every length-delimited field of the messages with any content of up to 4 (thorough: 6) bytes followed by other bytes', outside='other buffer sizes; longer histories; ' + OUT_SCHEMA,
  jobs=[J('h_' + e) for e in ('user', 'fixed', 'user_nested', 'fixed_nested')] + [J('h_f_' + m, params={'len': 4}, covers=['checked', 'accepted']) for m in C17M]
    + [J('h_' + e, params={'steps': n}, tiers=T, cost=20, optional=True) for n in (4, 5) for e in ('user', 'fixed', 'user_nested', 'fixed_nested')] + [J('h_f_' + m, params={'len': n}, covers=['checked'], tiers=T, cost=20, optional=True) for m in C17M for n in (3, 5, 6)])
# ---- C18
TSM = ['Scalars', 'Tags', 'Opts', 'Strs', 'Reps', 'RepMsg', 'Inner', 'Nest', 'One', 'HasNothing', 'RepStr', 'TNest', 'MiniMsg', 'MiniOne', 'MiniStr', 'MiniRep', 'Mini'] + NEW
TS = dict(defs=['-DMSG_TO_STRING'], covers=['checked', 'fits', 'truncated'])
CHECKS['C18'] = dict(bounds='all fields unset or all set to fixed values with every buffer size from 0 to two more than needed; one field arbitrary (any number, any text, every length) with sizes 0, 1, half, needed-1, needed, needed+1 (thorough: every size); every field type on its own with any value, indentation 0..3, with and without a name, every size (double: six sizes; thorough: every); ' + CORPUS, outside=OUT_SCHEMA + '; buffers above 3000 bytes; the digits printed for numbers (only their number is modelled)',
  assumptions=['snprintf is a model in the engine (exact length and bytes for text and integers, exact length for floating point); native replays use the C library'],
  jobs=[J('h_' + m, cost=20 if m == 'Reps' else 3, **TS) for m in TSM] + [J('h_e_' + m, **TS) for m in TSM + ['Nothing']] + [J('f_' + t, cost=5 if t == 'float' else 1, **TS) for t in ('int32', 'int64', 'uint32', 'uint64', 'sint64', 'fixed32', 'sfixed64', 'bool', 'float', 'double', 'str', 'byt', 'rep')]
    + [J('f_double', params={'every': 1}, tiers=T, cost=60, optional=True, **TS)] + [j for m in TSM for j in shards('h_' + m, 5, params={'every': 1}, tiers=T, cost=60, optional=True, defs=['-DMSG_TO_STRING'], covers=[])] + shards('h_Reps', 14, params={'deep': 1}, tiers=T, cost=60, optional=True, defs=['-DMSG_TO_STRING'], covers=[]))
CHECKS['C24'] = dict(query_s=20, bounds='every corpus message, all other fields unset or set to fixed values, one field arbitrary (any integer, bool, text of every length, bytes of every length; arrays of every length with one arbitrary element; thorough: all arbitrary), floating point values from a list of 7; buffer sizes 0, 1, half, needed, needed+1 and ample (thorough: every size); ' + CORPUS, outside=OUT_SCHEMA + '; the digits of floating point values outside the list; texts above 3000 bytes',
  assumptions=['snprintf is a model in the engine (exact bytes for text, integers and known floating point values); native replays use the C library'],
  jobs=[J('h_' + m, cost=5, **TS) for m in TSM + ['Nothing']] + [j for m in TSM for j in shards('h_' + m, 4, params={'every': 1}, tiers=T, cost=60, optional=True, defs=['-DMSG_TO_STRING'], covers=[])] + shards('h_Reps', 14, params={'deep': 1}, tiers=T, cost=60, optional=True, defs=['-DMSG_TO_STRING'], covers=[]))
CHECKS['C25'] = dict(bounds='two threads without synchronisation doing the same work with the same arbitrary inputs, so that any write to memory existing before is a race in every schedule (and would be one with any other operation using that memory): const operations on one message (serialization to each kind of buffer, size, copy, assignment from it, every getter, to_string), with all other fields unset or set and one field arbitrary; and the life of one message per thread (reception of an arbitrary well-formed, malformed or unknown record from either kind of buffer, set, mutate, copy, assign, move, clear); ' + CORPUS, outside=OUT_SCHEMA + '; accesses the C library makes inside snprintf; read and write buffers shared between threads (they are not meant to be)',
  assumptions=['atomic accesses and the guarded initialisation of static locals do not race; nothing else in the library synchronises'],
  jobs=[J(p + m, cost=4, defs=TS['defs']) for m in TSM if m != 'Mini' for p in ('h_', 'h_w_')] + [J('h_Nothing', defs=TS['defs']), J('h_fields', defs=TS['defs'])])
# ---- C19 C22
CHECKS['C19'] = dict(no_heap=True, bounds='life of every corpus message: construction, one field arbitrary (any value, every length) with the others unset or set, serialization to each kind of write buffer, size, copy, assignment, move, mutable access, clear; reception of an arbitrary well-formed, malformed or unknown record; and serialization to buffers that are too small; and the harnesses of C13-C17 and C21 (histories of two operations; thorough: three)', outside=OUT_SCHEMA + '; to_string (the C library may allocate when printing floating point)',
  jobs=[J('h_' + m, cost=3) for m in ALLM] + [J('h_r_' + m, cost=5) for m in ALLM]
    + [J('h_' + e, tu='c13', params={'steps': 2}, thorough_params={'steps': 3}, cost=4) for e in ('str', 'byt')] + [J('h_big', tu='c13')] + [J('h_' + e, tu='c14', params={'steps': 2}, thorough_params={'steps': 3}, cost=4) for e in C14E] + [J('h_' + e, tu=t, params={'steps': 3}) for t, e in (('c15', '4'), ('c16', '4'), ('c16', 'size'))]
    + [J('h_' + m, params={'deep': 1}, tiers=T, cost=30, optional=True) for m in ALLM])
C22A = ('Mini', 'MiniStr', 'MiniRep', 'MiniMsg', 'MiniOne', 'Nothing')
CHECKS['C22'] = dict(bounds='reading: ' + ANY.replace('quick n = 6 or 7, thorough n = 8 or 9', 'quick n = 5, thorough n = 7') + 'compared between a user buffer reporting the bytes left, a user buffer reporting the total, ReadBufferFixedSize with 0 or 2 bytes consumed before, and ReadBufferSection over either in the middle of a longer buffer; writing: one field arbitrary, a user buffer against WriteBufferFixedSize of a size that some values exceed, and the size calculator; ' + CORPUS, outside=OUT_SCHEMA,
  jobs=[J('h_' + m, cost=8, covers=['checked', 'accepted', 'refused']) for m in ALLM if m not in ('Opts40', 'Reps', 'Nest', 'One', 'TNest', 'StrBig', 'Opts', 'Deep', 'OptMore', 'TOuter', 'b_c_Abc', 'Far')] + [j for m, n in (('Deep', 3), ('OptMore', 4), ('TOuter', 3), ('Opts40', 8), ('Reps', 7), ('Nest', 5), ('One', 5), ('TNest', 5), ('StrBig', 2), ('Opts', 3)) for j in shards('h_' + m, n, cost=10)]
    + [J('w_' + m, covers=['checked', 'fits']) for m in ALLM] + [J('w_' + m, params={'all': 1}, covers=['checked', 'fits', 'full']) for m in ('MiniStr', 'MiniRep', 'MiniOne')]
    + [J('h_all_' + m, params={'n': n, 'filled': f}) for m in C22A for n in (3, 5) for f in (0, 1)] + [J('h_all_' + m, params={'n': 7, 'filled': f}, tiers=T, cost=40, optional=True) for m in C22A for f in (0, 1)] + [J('w_' + m, params={'deep': 1}, tiers=T, cost=30, covers=['checked'], optional=True) for m in ALLM])
# ---- generated classes and primitives: C20 C21
CHECKS['C20'] = dict(bounds='every field of every corpus message with arbitrary values: set alone, read back, serialized (number and wire type), all other fields unchanged; field_number_to_name for any 32-bit number; capacities and enum values; ' + CORPUS, outside=OUT_SCHEMA, generator_failure_is_violation=True,
  jobs=[J('h_tab_' + m) for m in ALLM + ['Mini', 'Nothing', 'Point', 'Leaf', 'Opts70', 'Opts33']] + [J('h_' + m) for m in ALLM + ['Mini', 'Opts70', 'Opts33']])
CHECKS['C21'] = dict(bounds='every 32- and 64-bit value, every field number 1..2^29-1, every capacity from 0 to one more than needed; decoders on every byte string of up to maximum+1 bytes; every scalar field class with any value, any wire type, assignments and comparisons', outside='a big-endian target',
  jobs=[J(e) for e in 'h_varint32 h_varint64 h_fixed32 h_fixed64 h_tagged32 h_tagged64 h_taggedfix h_zigzag d_var32 d_var64 d_uint32 d_uint64 d_int32 d_int64 d_sint32 d_sint64 d_fix32 d_fix64 d_sfix32 d_sfix64 d_float d_double d_enum d_bool d_tag r_var m_i32_i64 m_u64_u32 m_s32_sf32 m_f64_u32 m_dbl_flt m_i64_i32'.split()] + [J('f_' + e, covers=['checked', 'decoded', 'failed', 'wiretype', 'fits', 'full']) for e in 'int32 int64 uint32 uint64 sint32 sint64 boolean fixed32 fixed64 sfixed32 sfixed64 float double enum'.split()])
# ---- lengths, counts and sizes beyond 8 and 16 bits (harness/big.cpp): concrete lengths, arbitrary first, middle and last bytes
BIGN = {'Text': (127, 128, 255, 256, 257, 16383, 16384, 32768, 65535, 65536, 65539), 'Blob': (127, 256, 16384, 65535, 65536, 65539), 'Choice': (128, 255, 16383, 65536, 65539), 'Holder': (123, 124, 125, 252, 256, 16379, 16384, 65531, 65536, 65539),
  'Flags': (256, 65536, 65539), 'Words': (16, 32, 2047, 2048, 8191, 8192, 8193), 'Points': (255, 256, 257, 300), 'Lines': (255, 256, 260), 'Pages': (124, 125, 127, 128, 253, 256, 16381, 16384, 17000), 'Notes': (127, 128, 255, 256, 300)}
QN = {'Text': (255, 256, 16384, 65535, 65536, 65539), 'Blob': (256, 65536), 'Choice': (128, 65539), 'Holder': (124, 252, 65536), 'Flags': (256, 65536), 'Words': (32, 8192), 'Points': (256, 300), 'Lines': (256, 260), 'Pages': (126, 127, 16384), 'Notes': (128, 256)}
def big(prefix):
    return [J(prefix + '_' + m, tu='big', params={'n': n}, tiers=Q if n in QN[m] else T, max_steps=400000000, cost=12 if m == 'Flags' and n > 60000 else 4 if n > 60000 else 2) for m in BIGN for n in sorted(set(BIGN[m] + QN[m]))]
def bign(entry, ns, **k): return [J(entry, tu='big', params={'n': n}, max_steps=400000000, cost=3, **k) for n in ns]
WIDE = (127, 128, 255, 256, 257, 16384, 32768, 65535, 65536, 65539)
BIGB = ' Messages of up to 70 kB (strings, bytes, oneof members, submessages, repeated fields): concrete lengths around 2^7, 2^8, 2^14, 2^15, 2^16, with arbitrary first, middle and last content byte.'
for c, pre in (('C01', 'e'), ('C02', 't'), ('C07', 's'), ('C08', 'c'), ('C03', 'd'), ('C05', 'x'), ('C11', 'p'), ('C12', 'k'), ('C22', 'b')):
    CHECKS[c]['jobs'] += big(pre); CHECKS[c]['bounds'] += '.' + BIGB
for c in ('C04', 'C05'): CHECKS[c]['jobs'] += [J('o_' + m, tu='big', max_steps=400000000, cost=5) for m in ('Text', 'Blob', 'Flags')]
CHECKS['C04']['jobs'] += big('d') + big('x'); CHECKS['C04']['bounds'] += '.' + BIGB
CHECKS['C06']['jobs'] += bign('u_skip', WIDE) + bign('u_nested', WIDE); CHECKS['C06']['bounds'] += '. Unknown payloads of up to 70 kB at the same boundary lengths'
CHECKS['C13']['jobs'] += bign('f_str', WIDE) + bign('f_byt', WIDE) + bign('f_cstr', WIDE + (70000,)); CHECKS['C13']['bounds'] += '; capacity 70000 with lengths around 2^7, 2^8, 2^14, 2^15, 2^16'
CHECKS['C14']['jobs'] += bign('f_rep', WIDE + (70000,)); CHECKS['C14']['bounds'] += '; capacity 70000 with lengths and indices around 2^7, 2^8, 2^14, 2^15, 2^16'
CHECKS['C15']['jobs'] += bign('r_fixed', WIDE + (70000,)); CHECKS['C15']['bounds'] += '; a buffer of 70000 bytes at boundary sizes'
CHECKS['C16']['jobs'] += bign('w_fixed', WIDE + (70000,)); CHECKS['C16']['bounds'] += '; a buffer of 70000 bytes at boundary sizes'
CHECKS['C17']['jobs'] += bign('sec', WIDE); CHECKS['C17']['bounds'] += '; sections of up to 65539 bytes at boundary lengths'
ATM = ('Reps', 'RepBig', 'RepMsg', 'Inner', 'HasNothing', 'RepStr', 'TNest', 'Names', 'Fwd', 'TOuter', 'TCap', 'MiniMsg', 'MiniRep', 'Tags', 'Shade', 'Ali', 'Wide')
for c in ('C14', 'C20'): CHECKS[c]['jobs'] += [J('h_at_' + m, tu='c20') for m in ATM]; CHECKS[c]['bounds'] += '; every way to store one element at any 32-bit index through the accessors of every message with a repeated field'
CHECKS['C19']['jobs'] += [J(j['entry'], tu=j.get('tu', 'c21'), params=dict(j.get('params', {}))) for j in CHECKS['C21']['jobs']] + [J('h_%s_%s' % (a, b), tu='c11') for a in ('str', 'byt') for b in ('smaller', 'larger')] + [J('h_rep_' + t, tu='c11') for t in ('i32', 'str', 'msg')] + [J(j['entry'], tu=j.get('tu', 'c17'), params=dict(j.get('params', {}))) for j in CHECKS['C17']['jobs'] if j.get('tu', 'c17') == 'c17' and 'quick' in j.get('tiers', Q)]
CHECKS['C19']['jobs'] += [j for pre in ('t', 'p') for j in big(pre)]; CHECKS['C19']['bounds'] += '.' + BIGB
NOT_APPLICABLE = {'C23': 'quantifies over schemas: the generator is Python with Jinja2 templates and its output is judged by a C++ compiler, neither of which can be encoded for a solver here; compiling sample schemas would be testing. The corpus compiling at all is part of C20.'}
