UB = '-fsanitize=undefined -fno-sanitize-recover=undefined'
IOSETS = [f'{s}_{c}_{k}.cc' for s in ('loaders', 'listeners') for c in range(6) for k in range(5)] + ['loaders_reg.cc', 'listeners_reg.cc']
# Code generators that run from the mirror of the repository.
GENS = [
    dict(script='gen_io.py', dir='io', deps=['arolla/codegen'], outs=[f'acc_{i}.cc' for i in range(8)] + IOSETS + [f'{s}_{c}.h' for s in ('loaders', 'listeners') for c in range(6)]),
]
ARRS = ['arolla/dense_array/bitmap.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/memory/optional_value.cc'] + ['arolla/util/' + f for f in ('preallocated_buffers.cc', 'repr.cc', 'fingerprint.cc', 'string.cc', 'bytes.cc', 'text.cc', 'unit.cc', 'status.cc', 'demangle.cc')]
TARGETS = [
    dict(name='probe', srcs=['probe.cc', 'std_ops.cc'], libs=['base', 'core', 'ops']),
    dict(name='h_bits', srcs=['h_bits.cc'], extra=UB, ldflags=UB),
    dict(name='h_scalar', srcs=['h_scalar.cc'], repo_srcs=['arolla/util/repr.cc', 'arolla/util/fingerprint.cc', 'arolla/util/string.cc'], extra=UB + ' -fno-sanitize=float-divide-by-zero,float-cast-overflow', ldflags=UB),
    dict(name='h_search', srcs=['h_search.cc'], repo_srcs=['arolla/util/binary_search.cc'], extra=UB, ldflags=UB),
    dict(name='h_packs', srcs=['h_packs.cc'], cfg='asan0'),
    dict(name='h_memory', cfg='asan0', srcs=['h_memory.cc'], repo_srcs=['arolla/util/preallocated_buffers.cc', 'arolla/util/demangle.cc', 'arolla/util/repr.cc', 'arolla/util/fingerprint.cc', 'arolla/util/string.cc', 'arolla/util/bytes.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc', 'arolla/memory/optional_value.cc']),
    dict(name='h_buffers', srcs=['h_buffers.cc'], repo_srcs=['arolla/memory/' + f for f in ('raw_buffer_factory.cc', 'strings_buffer.cc', 'optional_value.cc')] + ['arolla/util/' + f for f in ('preallocated_buffers.cc', 'repr.cc', 'fingerprint.cc', 'string.cc', 'bytes.cc', 'text.cc', 'unit.cc')], extra=UB + ' -fno-sanitize=alignment,pointer-overflow,nonnull-attribute', ldflags=UB),
    dict(name='h_dense', srcs=['h_dense.cc'], repo_srcs=ARRS, extra=UB + ' -fno-sanitize=alignment,pointer-overflow,nonnull-attribute', ldflags=UB),
    dict(name='h_array', srcs=['h_array.cc'], repo_srcs=['arolla/array/' + f for f in ('array.cc', 'array_util.cc', 'id_filter.cc')] + ARRS, extra=UB + ' -fno-sanitize=alignment,pointer-overflow,nonnull-attribute', ldflags=UB),
    dict(name='h_groups', cfg='asan0', srcs=['h_groups.cc'], repo_srcs=['arolla/array/' + f for f in ('array.cc', 'array_util.cc', 'id_filter.cc', 'edge.cc')] + ['arolla/dense_array/edge.cc'] + ARRS),
    dict(name='h_jagged', cfg='asan0', srcs=['h_jagged.cc', 'std_ops.cc'], libs=['base', 'core']),
    dict(name='h_forest', cfg='asan0', srcs=['h_forest.cc', 'std_ops.cc'], libs=['base', 'core']),
    dict(name='h_expr', cfg='asan0', srcs=['h_expr.cc', 'std_ops.cc'], libs=['base', 'core', 'ops']),
    dict(name='h_s11n', cfg='asan0', srcs=['h_s11n.cc', 'std_ops.cc'], libs=['base', 'core', 'ops']),
    dict(name='h_types', cfg='asan0', srcs=['h_types.cc', 'std_ops.cc'], libs=['base', 'core']),
    dict(name='h_utils', srcs=['h_utils.cc'], repo_srcs=['arolla/util/string.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc'], extra=UB, ldflags=UB),
    dict(name='h_refptr', srcs=['h_refptr.cc'], extra=UB, ldflags=UB),
    dict(name='h_threading', cfg='mc', srcs=['h_threading.cc'], repo_srcs=['arolla/util/threading.cc'], plain_srcs=['mcrt/mcrt.cc']),
    dict(name='h_refcount', cfg='mc', srcs=['h_refcount.cc'], plain_srcs=['mcrt/mcrt.cc']),
    dict(name='h_cancelseq', srcs=['h_cancelseq.cc'], repo_srcs=['arolla/util/cancellation.cc'], extra=UB, ldflags=UB),
    dict(name='h_cancel', cfg='mc', srcs=['h_cancel.cc'], repo_srcs=['arolla/util/cancellation.cc'], plain_srcs=['mcrt/mcrt.cc']),
    dict(name='h_tablepath', srcs=['h_tablepath.cc'], repo_srcs=['arolla/naming/table.cc', 'arolla/naming/policy.cc', 'arolla/naming/protopath_id.cc'], extra=UB, ldflags=UB),
    dict(name='h_io', cfg='asan0', srcs=['h_io.cc'], libs=['base', 'core'], gen_srcs=[f'io/acc_{i}.cc' for i in range(8)] + ['hproto/vp_test.pb.cc', 'hproto/vp_test3.pb.cc']),
    dict(name='h_ioset', cfg='asan0', srcs=['h_ioset.cc'], libs=['base', 'core'], gen_srcs=['io/' + s for s in IOSETS] + ['hproto/vp_test.pb.cc', 'hproto/vp_test3.pb.cc']),
]
