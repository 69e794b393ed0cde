"""The sketch contract models against tfx_bsl, on concrete random streams."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import numpy as np, pyarrow as pa
from tfx_bsl import sketches
from sx import core, sketch

rng, bad, n = random.Random(int(os.environ.get('VERIF_SEED', '1'))), 0, 0
for trial in range(3000):
  streams = rng.choice([1, 1, 2, 3])
  weighted, parts = rng.random() < .5, rng.randint(1, 3)
  eps, k = rng.choice([.01, .1, .3]), rng.randint(2, 6)
  pair = []
  data = []
  for _ in range(parts):
    m = rng.randint(0, 4)
    v = [rng.choice([0., 1., 2., -3., 2.5, float('nan')]) for _ in range(m * streams)]
    w = [rng.choice([0., 1., 2., .5]) for _ in range(m)]
    data.append((v, w))
  for cls in (sketches.QuantilesSketch, sketch.QuantilesModel):
    ss = [cls(eps, 1 << 32, streams) for _ in data]
    for s, (v, w) in zip(ss, data):
      a = pa.array(np.array(v, np.float32))
      s.AddValues(a, pa.array(np.array(w, np.float32))) if weighted else s.AddValues(a)
      if rng.random() < .3: s.Compact()
    for s in ss[1:]: ss[0].Merge(s)
    pair.append(ss[0].GetQuantiles(k).to_pylist())
  n += 1
  if pair[0] != pair[1]:
    bad += 1
    if bad < 5: print('QUANTILES', data, streams, weighted, k, pair)
for trial in range(2000):
  order = rng.choice([sketches.MisraGriesSketch.OrderOnTie.Lexicographical,
                      sketches.MisraGriesSketch.OrderOnTie.ReverseLexicographical])
  parts = rng.randint(1, 3); weighted = rng.random() < .5
  data = []
  for _ in range(parts):
    m = rng.randint(0, 5)
    data.append(([rng.choice([b'a', b'b', b'ab', b'']) for _ in range(m)],
                 [rng.choice([1., 2., .5]) for _ in range(m)]))
  pair = []
  for cls in (sketches.MisraGriesSketch, sketch.MisraGriesModel):
    ss = [cls(8, order_on_tie=order) for _ in data]
    for s, (v, w) in zip(ss, data):
      a = pa.array(v, pa.binary())
      s.AddValues(a, pa.array(w, pa.float32())) if weighted else s.AddValues(a)
    for s in ss[1:]: ss[0].Merge(s)
    e = ss[0].Estimate()
    e.validate()
    t, f = e.flatten()
    pair.append([list(map(lambda x: x.as_py() if hasattr(x, 'as_py') else x, t)),
                 [float(x.as_py() if hasattr(x, 'as_py') else x) for x in f]])
  n += 1
  if pair[0] != pair[1]:
    bad += 1
    if bad < 9: print('MISRAGRIES', data, order, pair)
print(f'{n} streams, {bad} differences')
sys.exit(bad > 0)
