"""Differential test of the graph interpreter against TensorFlow sessions."""
import sys, os, tempfile, shutil, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(__file__))
def work(names):
  import sx
  from sx import tfsym, core, nparr
  import numpy as np, tensorflow as tf, apache_beam as beam
  import corpus
  from tensorflow_transform.beam import impl as bimpl, context
  from tensorflow_transform.tf_metadata import dataset_metadata
  from tensorflow_transform.saved import saved_transform_io
  import tensorflow_transform as tft
  V=tf.io
  fs={'x':V.FixedLenFeature([],tf.float32),'xv':V.FixedLenFeature([2],tf.float32),'i':V.FixedLenFeature([],tf.int64),'iv':V.FixedLenFeature([2],tf.int64),'s':V.FixedLenFeature([],tf.string),'sv':V.FixedLenFeature([2],tf.string),'k':V.FixedLenFeature([],tf.string),'sx':V.VarLenFeature(tf.float32),'si':V.VarLenFeature(tf.int64),'ss':V.VarLenFeature(tf.string),
   'rx':V.RaggedFeature(tf.float32,row_splits_dtype=tf.int64),'ri':V.RaggedFeature(tf.int64,row_splits_dtype=tf.int64),'rs':V.RaggedFeature(tf.string,row_splits_dtype=tf.int64),'rx2':V.RaggedFeature(tf.float32,value_key='rx2v',partitions=[V.RaggedFeature.RowLengths('rx2l')],row_splits_dtype=tf.int64),'w':V.FixedLenFeature([],tf.float32),'lab':V.FixedLenFeature([],tf.int64)}
  md=dataset_metadata.DatasetMetadata.from_feature_spec(fs)
  rng=np.random.RandomState(3)
  def row(j):
    n=int(rng.randint(0,4)); 
    fl=lambda k:[float(v) for v in rng.randint(-3,6,k)*0.5]
    it=lambda k:[int(v) for v in rng.randint(0,4,k)]
    st=lambda k:[b'abcd '[v:v+1] for v in rng.randint(0,4,k)]
    m=int(rng.randint(0,3)); ls=it(m)
    return {'x':fl(1)[0],'xv':fl(2),'i':it(1)[0],'iv':it(2),'s':st(1)[0],'sv':st(2),'k':st(1)[0],'sx':fl(n),'si':it(n),'ss':st(n),'rx':fl(n),'ri':it(n),'rs':st(n),'rx2v':fl(sum(ls)),'rx2l':ls,'w':abs(fl(1)[0])+.5,'lab':it(1)[0]%2}
  rows=[row(j) for j in range(6)]
  res=[]
  for n in names:
    d=tempfile.mkdtemp()
    try:
      fn=corpus.F[n]
      with context.Context(temp_dir=d, force_tf_compat_v1=True):
        with beam.Pipeline() as p:
          data=p|beam.Create(rows)
          tf_fn=((data,md)|bimpl.AnalyzeDataset(fn))
          import tensorflow_transform.beam as tb; tf_fn|tb.WriteTransformFn(d+'/out')
      out=tft.TFTransformOutput(d+'/out')
      for nb in (1,3,2):
        batch=[row(0) for _ in range(nb)] if nb!=3 else rows[:3]
        from tensorflow_transform import impl_helper
        with tf.Graph().as_default() as g:
          with tf.compat.v1.Session(graph=g).as_default() as sess:
            ser=None
            feats={}
            phs={}
            from tensorflow_transform.coders import example_proto_coder
            from tensorflow_transform.tf_metadata import schema_utils
            coder=example_proto_coder.ExampleProtoCoder(md.schema)
            ex=tf.io.parse_example([coder.encode(r) for r in batch],fs)
            exv=sess.run(ex)
            ph={}
            feeds={}
            for k,v in ex.items():
              if isinstance(v,tf.Tensor):
                ph[k]=tf.compat.v1.placeholder(v.dtype,[None]+list(v.shape[1:])); feeds[ph[k]]=exv[k]
              elif isinstance(v,tf.SparseTensor):
                ph[k]=tf.compat.v1.sparse_placeholder(v.dtype,[None,None]); feeds[ph[k]]=exv[k]
              else:
                ph[k]=tf.compat.v1.ragged.placeholder(v.dtype,v.ragged_rank); feeds[ph[k]]=exv[k]
            o=out.transform_raw_features(ph)
            sess.run(tf.compat.v1.tables_initializer())
            try: real=sess.run(o,feeds)
            except Exception as e: real=e
            it=tfsym.Interp(g)
            def feed(t,v):
              if isinstance(t,tf.Tensor): it.feed(t,np.asarray(v) if np.asarray(v).dtype.kind not in 'SU' else np.asarray(v,object))
              elif isinstance(t,tf.SparseTensor): 
                it.feed(t.indices,v.indices); it.feed(t.values,v.values); it.feed(t.dense_shape,v.dense_shape)
              else:
                feed(t.values,v.values); it.feed(t.row_splits,v.row_splits)
            for t,v in feeds.items(): feed(t,v)
            tfsym.FORCE=True
            def run1():
              try: return {k:tfsym.fetch(it,t) for k,t in o.items()}
              except tfsym.TFError as e: traceback.print_exc(); return e
              except core.Unsupported as e: return ('UNS',str(e))
              except Exception as e: return ('UNS',traceback.format_exc()[-1500:])
            mine=core.Engine(max_paths=20)
            box=[]
            list(mine.explore(lambda: box.append(run1())))
            mine=box[0]
            if isinstance(mine,tuple): res.append((n,nb)+mine+('REAL:',str(real)[:300])); continue
            if isinstance(real,Exception) or isinstance(mine,Exception):
              if not (isinstance(real,Exception) and isinstance(mine,Exception)): res.append((n,nb,'EXC',str(real)[:100],str(mine)[:100]))
              continue
            def flat(v):
              if hasattr(v,'dense_shape'): return [v.indices,v.values,v.dense_shape]
              if hasattr(v,'row_splits') : return flat(v.values)+[v.row_splits]
              return [v]
            for k in o:
              for a,b in zip(flat(real[k]),flat(mine[k])):
                b=nparr.pylist(b); a=np.asarray(a)
                ok=a.shape==b.shape
                if ok:
                  if a.dtype.kind in 'f': ok=np.allclose(a.astype(float),b.astype(float),rtol=1e-4,atol=1e-5,equal_nan=True)
                  else: ok=all((x==y) for x,y in zip(a.ravel().tolist(),b.ravel().tolist()))
                if not ok: res.append((n,nb,k,'DIFF',a.tolist(),b.tolist()))
    except Exception as e:
      res.append((n,'ERR',type(e).__name__,str(e)[:200],traceback.format_exc()[-600:]))
    finally: shutil.rmtree(d,ignore_errors=True); tfsym.FORCE=False
  return res, dict(tfsym.USED_OPS)
if __name__=='__main__':
  import corpus
  names=list(corpus.F) if len(sys.argv)<2 else sys.argv[1:]
  ch=[names[i::7] for i in range(7)]
  with mp.get_context('spawn').Pool(7) as p:
    used=set(); 
    for r,u in p.imap(work,[c for c in ch if c]):
      used|=set(u)
      for x in r: print(*x)
  print('OPS forced',len(used))
