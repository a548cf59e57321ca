"""Names of tables and columns on the Python side against lists of segments."""
import pymc
from pymc import check, choose, eq, flag, harness, pick, say, state, step, tier

from arolla.codegen.io import table

NAMES = ['a', 'B_1', 'Ext::x.Y', 'm["k"]', 'x[0]', '&::s', 'c/d']


def full(segs):
  return '/' + '/'.join(segs)


@harness
def paths():
  """Every composition of Child/MapKeys/MapValues, then Column/Size/..."""
  p, segs = table.TablePath(), []
  start = choose(3)
  if start == 1:
    p, segs = table.TablePath('r'), ['r']
  elif start == 2:
    p, segs = table.TablePath('/q/r'), ['q', 'r']
  history = []
  for _ in range(choose(tier(4, 5))):
    before = str(p)
    k = choose(len(NAMES) + 2)
    if k < len(NAMES):
      n, name = p.Child(NAMES[k]), NAMES[k]
    elif k == len(NAMES):
      n, name = p.MapKeys(), '@key'
    else:
      n, name = p.MapValues(), '@value'
    step()
    history.append(name)
    eq(str(p), before, 'the base of Child')
    check(isinstance(n, table.TablePath), 'Child is not a table path')
    p = n
    segs = segs + [name]
    eq(str(p), full(segs), 'name')
    eq(p.name, full(segs), 'name')
  say(f'{start} {history}')
  state(segs)
  eq(p == table.TablePath(full(segs)), True, 'equality')
  eq(p == table.TablePath(full(segs + ['z'])), False, 'equality')
  for name in NAMES:
    step()
    c = p.Column(name)
    check(isinstance(c, table.ColumnPath), 'Column is not a column path')
    eq(str(c), full(segs + [name]), 'column')
    eq(c == table.ColumnPath(full(segs + [name])), True, 'column equality')
    eq(c == table.ColumnPath(full(segs)), False, 'column equality')
    s = p.Size(name)
    check(isinstance(s, table.ColumnPath), 'Size is not a column path')
    eq(str(s), full(segs + [name, '@size']), 'size')
  if segs:
    eq(str(p.Size('')), full(segs + ['@size']), 'size of the table itself')
  eq(str(p), full(segs), 'name after use')


@harness
def field_names():
  f, k = pick(NAMES), pick(NAMES + ['', 'a b'])
  i = pick([0, 1, 10, 2**40])
  say((f, k, i))
  step(4)
  eq(table.FieldAccess(f), f, 'field')
  eq(table.MapAccess(f, k), f'{f}["{k}"]', 'map')
  eq(table.ArrayAccess(f, i), f'{f}[{i}]', 'array')
  eq(table.ProtoExtensionAccess(f), 'Ext::' + f, 'extension')
  state((f, k, i))


if __name__ == '__main__':
  raise SystemExit(pymc.main())
