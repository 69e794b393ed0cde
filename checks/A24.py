"""Graph traversal visits each node once, inputs first, and rejects cycles."""
from tensorflow_transform import nodes
from tfx_bsl.types import tfx_namedtuple

from sx import core
from sx.checklib import Check, Lazy

CHECK = Check(
    'A24',
    bounds=['graphs of at most 4 operations with 1-2 outputs and 0-2 inputs '
            'each, chosen by solver variables; visitor results are arbitrary '
            'integers (weights of a linear visitor are symbolic)'])


class Op(tfx_namedtuple.namedtuple('Op', ['label', 'outs']), nodes.OperationDef):
  __slots__ = ()

  @property
  def num_outputs(self):
    return self.outs


def build(env, n, max_in=2, min_in=0):
  """A chosen DAG: list of (operation node, [(producer, output)])."""
  ops = []
  for i in range(n):
    # two operations may be built alike: same label, same inputs
    lab = f'op{i}' if not i or not env.choose(2, f'alike{i}') else f'op{i - 1}'
    outs = 1 + env.choose(2, f'outs{i}')
    avail = [(j, k) for j in range(i) for k in range(ops[j][2])]
    n_in = 0 if not avail else env.choose(max_in + 1 - min_in, f'nin{i}') + min_in
    ins = []
    for m in range(n_in):
      ins.append(avail[env.choose(len(avail), f'in{i}_{m}')])
    args = [ops[j][0].outputs[k] for j, k in ins]
    outputs = nodes.apply_multi_output_operation(Op, *args, label=lab, outs=outs)
    ops.append((outputs[0].parent_operation, ins, outs))
  return ops


class Linear(nodes.Visitor):
  """Output k of an operation: bias + weighted sum of its inputs (position
  dependent), so that any wrong, missing or reordered input changes the result."""

  def __init__(self, env):
    self.env = env
    self.calls = []
    self.validated = 0

  def bias(self, t, k):
    return self.env.once_value((t, k))

  def visit(self, operation_def, input_values):
    t = len(self.calls)
    self.calls.append((operation_def, input_values))
    return tuple(self.value(t, k, input_values)
                 for k in range(operation_def.num_outputs))

  def value(self, t, k, ins):
    v = self.bias(t, k)
    for p, x in enumerate(ins):
      v = v + (p + 2) * x
    return v

  def validate_value(self, value):
    self.validated += 1


class Values:

  def __init__(self, env):
    self.env, self.d = env, {}

  def once_value(self, key):
    if key not in self.d:
      self.d[key] = self.env.int(f'b{key[0]}_{key[1]}', -1000, 1000)
    return self.d[key]


def reachable(ops, i, seen):
  if i not in seen:
    for j, _ in ops[i][1]:
      reachable(ops, j, seen)
    seen.append(i)
  return seen


@CHECK.case('dag', budget=40, shards=2, bounds='graphs of up to 4 operations, '
            'one traversal per root with a shared traverser')
def dag(env):
  ops = build(env, 4 if env.shard else 3)
  values = Values(env)
  v = Linear(values)
  t = nodes.Traverser(v)
  roots = [len(ops) - 1]
  if env.choose(2, 'two_roots'):
    roots.append(env.choose(len(ops) - 1, 'root2'))
  seen = []
  results = []
  for r in roots:
    k = env.choose(ops[r][2], f'rootout{r}')
    results.append((r, k, t.visit_value_node(ops[r][0].outputs[k])))
    reachable(ops, r, seen)
  defs = [o.operation_def for o, _, _ in ops]
  visited = []
  for d, _ in v.calls:
    hit = [i for i in range(len(ops)) if defs[i] is d]
    env.check(len(hit) == 1, 'visited operations belong to the graph')
    visited.append(hit[0])
  env.check(sorted(visited) == sorted(seen),
            'each reachable operation is visited exactly once',
            Lazy(visited, seen))
  order = {i: p for p, i in enumerate(visited)}
  outputs = {}
  for p, i in enumerate(visited):
    ins = ops[i][1]
    env.check(all(order[j] < p for j, _ in ins), 'inputs are visited first')
    got = v.calls[p][1]
    env.check(len(got) == len(ins), 'number of input values')
    for (j, k), g in zip(ins, got):
      env.check(core._norm(g) == core._norm(outputs[j, k]),
                'the visitor gets the results of the inputs, in order',
                Lazy(got))
    for k in range(ops[i][2]):
      outputs[i, k] = v.value(p, k, [outputs[a] for a in ins])
  for r, k, g in results:
    env.check(core._norm(g) == core._norm(outputs[r, k]),
              'value of the requested output', Lazy(g))
  env.check(v.validated == sum(ops[i][2] for i in seen),
            'every visited value is validated')


@CHECK.case('cycle', budget=20, shards=2, bounds='graphs of up to 4 operations with one '
            'back edge')
def cycle(env):
  n = 3 + env.shard
  ops = build(env, n)
  a = env.choose(n, 'from')
  b = env.choose(n, 'to')
  op, _, _ = ops[a]
  target = ops[b][0].outputs[env.choose(ops[b][2], 'tout')]
  # the back edge: operation a also takes an output of operation b
  before = list(op.inputs)
  at = env.choose(len(before) + 1, 'at')
  nodes.OperationNode.__init__(
      op, op.operation_def, tuple(before[:at] + [target] + before[at:]))
  edges = {i: [j for j, _ in ins] for i, (_, ins, _) in enumerate(ops)}
  edges[a] = edges[a] + [b]

  def reach(i, seen):
    for j in edges[i]:
      if j not in seen:
        seen.add(j)
        reach(j, seen)
    return seen
  root = env.choose(n, 'root')
  live = reach(root, {root})
  cyclic = any(i in reach(i, set()) for i in live)
  t = nodes.Traverser(Linear(Values(env)))
  try:
    t.visit_value_node(ops[root][0].outputs[0])
    refused = False
  except (AssertionError, RecursionError) as e:
    refused = True
    env.check(isinstance(e, AssertionError), 'a cycle is reported as such')
  env.check(refused == cyclic, 'exactly the cyclic graphs are refused',
            Lazy(refused, cyclic))


@CHECK.case('outputs', budget=6, bounds='a visitor returning 0-3 values or a '
            'non-tuple for an operation with 1-2 outputs')
def outputs(env):
  outs = 1 + env.choose(2, 'outs')
  out = nodes.apply_multi_output_operation(Op, label='x', outs=outs)
  env.check(len(out) == outs and [o.value_index for o in out] == list(
      range(outs)), 'one value node per output')
  kind = env.choose(6, 'kind')
  x = env.int('x', -9, 9)
  vals = [(), (x,), (x, x + 1), (x, x + 1, x + 2), x, 'ab'][kind]

  class V(nodes.Visitor):

    def visit(self, d, i):
      return vals

    def validate_value(self, value):
      pass
  k = env.choose(outs, 'k')
  ok = isinstance(vals, tuple) and len(vals) == outs
  try:
    g = nodes.Traverser(V()).visit_value_node(out[k])
    env.check(ok, 'a result of the wrong arity is refused')
    env.check(core._norm(g) == core._norm(vals[k]), 'value of output k')
  except ValueError:
    env.check(not ok, 'a result of the right arity is accepted')
  # value nodes outside the operation's outputs do not exist
  i = env.int('index', -3, 3)
  try:
    nodes.ValueNode(out[0].parent_operation, i)
    env.check((i >= 0) & (i < outs) if core.is_sym(i) else 0 <= i < outs,
              'only existing outputs can be referenced')
  except ValueError:
    env.check((i < 0) | (i >= outs) if core.is_sym(i) else not 0 <= i < outs,
              'existing outputs can be referenced')


@CHECK.case('count_and_dot', budget=20, shards=1, bounds='graphs of up to 4 '
            'operations; number of nodes and edges of the rendering')
def count_and_dot(env):
  ops = build(env, 4)
  roots = [ops[-1][0].outputs[0]]
  seen = reachable(ops, 3, [])
  if env.choose(2, 'two'):
    r = env.choose(3, 'r')
    roots.append(ops[r][0].outputs[0])
    reachable(ops, r, seen)
  env.check(nodes.count_graph_nodes(roots) == len(seen),
            'number of nodes in the graph')
  dot = nodes.get_dot_graph(roots)
  env.check(len(dot.get_edges()) == sum(len(ops[i][1]) for i in seen),
            'one edge per use of a value')
