"""Which generated operator registrations are built, and in which library."""
import re

NUM = re.compile(r'int64_t|double')


def select(call):
  """Yields (library, file name, template context)."""
  cx = call['context']
  if call['pkg'].startswith('arolla/codegen/qexpr/testing') or call['pkg'].endswith('operators/testing'):
    return
  if 'op_family_class' in cx:
    if 'registration' in call['template']:
      yield 'ops', call['name'], cx
    return
  if 'overloads' not in cx or 'is_individual_operator' not in cx or cx['is_individual_operator']:
    return
  m = re.search(r'_(plain|on_[a-z_]+)_cc$', call['name'])
  group = m.group(1)
  lib = {'plain': 'ops', 'on_optionals': 'ops', 'on_scalars': 'ops',
         'on_dense_arrays': 'dops', 'on_arrays': 'aops'}.get(group, 'ops')
  yield lib, call['name'], cx
