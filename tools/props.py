"""Which harnesses decide which property."""


def cc(name, **kw):
  return dict(kind='cc', name=name, bin=name, **kw)


def py(name, **kw):
  return dict(kind='py', name=name, script=f'{name}.py', **kw)


PROPS = {
    'C01': dict(units=[cc('h_refptr'), cc('h_refcount', shard=(6, 16))], bounds='2 threads with 4/8 and 3 threads with 2/4 preemptions or stale reads, every pair/triple of the listed owner programs; pointer histories of 4 operations over 2/3 variables'),
    'C02': dict(units=[cc('h_threading', shard=(6, 16))], bounds='0..3/4 tasks, parallelism 1..5 and huge; up to 3/5 preemptions with 2 workers, 2/3 with 3, 1/2 with 4'),
    'C03': dict(
        units=[cc('h_bits')],
        bounds='32- and 64-bit words; every [start,end) over 3 words for all pattern triples; every bit pair over 3 words; '
               'copy/intersect: every (length<=2.5 words quick / 3 words thorough, both offsets < word size)'),
    'C04': dict(
        units=[cc('h_search')],
        bounds='every two-change-point array up to size 35/140, every strict array up to 140/600, multiplicities 0..2 of boundary values; '
               'iterator moves: every history of 3/5 moves over <=3 items'),
    'C05': dict(
        units=[cc('h_scalar')],
        bounds='all pairs of a grid of boundary values per scalar type (triples for sigmoid); casts between all scalar types'),
    'C06': dict(compile_decides=True, units=[cc('h_packs')], bounds='packs of 0..2 pairs with every combination of 3 ways to pass a name and 6 kinds of accessor, 3 and 4 pairs with a subset; 4 names'),
    'C07': dict(
        units=[py('h_accessors')],
        bounds='every accessor list, filter and generator composition of the grammar in h_accessors.py'),
    'C08': dict(compile_decides=True, units=[cc('h_io')], bounds='548 accessors over every element kind; every combination of presence, size 0..2/3 and keys of the fields of a path; every present/missing pattern of written values'),
    'C09': dict(compile_decides=True, units=[cc('h_ioset')], bounds='28 loaders and 18 listeners; every pair of columns is explored completely with the other columns all empty or all full; all/pair/all-but-one requests (every subset for few columns)'),
    'C15': dict(units=[py('h_protopath')], bounds='every path of up to 3/4 elements out of 41; every slash pattern of up to 5/6 characters; every list of up to 4/5 requests over 13/15 paths; up to 74/139 siblings; all fields of the test protos'),
    'C10': dict(units=[py('h_cppnames', whole=('operator_names_all_chars', 'operator_names_long', 'input_qtype_operator_name'))], bounds='every string over the alphabets in h_cppnames.py up to length 3/4'),
    'C11': dict(units=[py('h_fncall')], bounds='every nested request with up to 3/4 inner nodes; every argument string of up to 2/3 special characters'),
    'C12': dict(units=[cc('h_tablepath'), py('h_table')], bounds='every path of up to 3/4 segments over 10 names with both index flags; every pair of paths of up to 2 (3) segments; every id of up to 4/5 tokens; Python: every composition of up to 3/4 steps'),
    'C16': dict(units=[cc('h_cancelseq'), cc('h_cancel', shard=(6, 16))], bounds='2 threads with 2/4 (events 3/5) and 3 threads with 1/2 preemptions or stale reads over all pairs/triples of the listed programs; histories of 5/7 operations with 3 subscriptions and 2 handles; 5/6 scopes and cancellations'),
    'C17': dict(units=[cc('h_buffers', shard=(4, 8))], bounds='buffers of up to 2/3 elements, 1/2 builder operations, up to 3 derivations, three factories; sizes around the representation limits (up to 16385); arena histories of 4/5 allocations, resizes and resets'),
    'C18': dict(units=[cc('h_dense', shard=(3, 8))], bounds='9/20 sizes of 0..97 around word limits, bit offsets {0,1,16,31}/0..31, 8 presence patterns, garbage outside; pairs of arrays completely, triples reduced; two view operations; builder histories of 2/3 operations'),
    'C19': dict(units=[cc('h_groups', shard=(5, 8))], bounds='edges of up to 2/3 parents and 3/4 children in every representation, chains of up to 4 edges; group operations over every edge with 2 parents and 2/3 children and all presence patterns; sparse data with up to 12 children and 9 groups'),
    'C20': dict(units=[cc('h_array', shard=(4, 8))], bounds='every representation of arrays of up to 3/5 elements (pairs and two derivations: 2/3); id sets over 6/8 ids; sparse unions of up to 17 elements'),
    'C21': dict(units=[cc('h_types', shard=(3, 8))], bounds='layouts of up to 3/4 slots and subframes of 14 kinds; 3 allocations with 3/5 operations; values of tuples and named tuples of up to 2 fields and depth 2 over 15 atoms, in pairs; every map of 3 names; every deviation of a derived type'),
    'C22': dict(units=[cc('h_jagged', shard=(4, 8))], bounds='shapes of up to 3 dimensions, up to 2/3 children per group and 4/5 in all, edges in every representation; pairs of up to 3/4 in all; up to 3 arrays joined'),
    'C23': dict(units=[cc('h_forest', shard=(4, 8))], bounds='every tree of up to 3 splits over 5/8 (12/20, 20) conditions, and trees of up to 100 splits of six kinds; forests of up to 3/4 of 10 trees; 1 or 2 groups of 10 filters; up to 130 rows'),
    'C24': dict(units=[cc('h_expr', shard=(4, 8))], bounds='every expression of up to two operators (four operator families, pools of 5-6/7-11 leaves and literals of different types), logical_if over conditions of up to one operator, every graph of up to three operators with lazy branches; all values of the leaves; 3 or 4 ways to compile'),
    'C25': dict(units=[cc('h_s11n', shard=(1, 8))], bounds='about 500 values of all types (scalars, dense, sparse and sliced arrays, edges, tuples, operators, quotes), all pairs of kinds (quick: every seventh), every pair of 17 expressions, every operator of the package; in 5 variants of the format; every single fault of the encodings of each kind and expression, every pair of faults of 7 small ones (quick: every other first fault)'),
    'C13': dict(units=[cc('h_memory')], bounds='alignments up to 4096/32768; boundary values of all integer type triples; spans up to 4/6 elements with 2/3 steps; struct layouts of three members'),
    'C14': dict(units=[cc('h_utils')], bounds='cache histories of 5/6 operations over 3 keys and capacity up to 3/4; strings up to length 4/6 over special characters; all class forests of up to 5/6 classes'),
}
