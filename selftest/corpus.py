"""Small preprocessing functions covering every mapper (engine self-test)."""
import os,time,sys,collections
import tensorflow as tf, tensorflow_transform as tft
from tensorflow_transform import impl_helper
tf.compat.v1.logging.set_verbosity('ERROR')
S=lambda *sh,dt=tf.float32: tf.TensorSpec([None,*sh],dt)
SP=lambda dt=tf.float32,n=1: tf.SparseTensorSpec([None]*2 if n==1 else [None]*(n+1),dt)
RG=lambda dt=tf.float32,r=1: tf.RaggedTensorSpec([None]*(r+1),dt,ragged_rank=r,row_splits_dtype=tf.int64)
specs={'x':S(),'xv':S(2),'i':S(dt=tf.int64),'iv':S(2,dt=tf.int64),'s':S(dt=tf.string),'sv':S(2,dt=tf.string),'k':S(dt=tf.string),
'sx':SP(),'si':SP(tf.int64),'ss':SP(tf.string),'rx':RG(),'ri':RG(tf.int64),'rs':RG(tf.string),'rx2':RG(r=2),'w':S(),'lab':S(dt=tf.int64)}
import functools
F={}
def f(n):
  def d(fn): F[n]=fn; return fn
  return d
for a in ('min','max','sum','mean','var'):
  for c in ('x','xv','i','sx','si','rx'):
    F[f'{a}_{c}']=lambda q,a=a,c=c:{'o':getattr(tft,a)(q[c])+tf.zeros([1],getattr(tft,a)(q[c]).dtype)}
  for c in ('xv','sx'):
    F[f'{a}_{c}_el']=lambda q,a=a,c=c:{'o':getattr(tft,a)(q[c],reduce_instance_dims=False)}
for c in ('x','xv','sx','rx','rx2'):
  for m in ('scale_to_0_1','scale_to_z_score','scale_by_min_max','scale_to_gaussian'):
    F[f'{m}_{c}']=lambda q,m=m,c=c:{'o':getattr(tft,m)(q[c])}
  F[f'bucketize_{c}']=lambda q,c=c:{'o':tft.bucketize(q[c],3)}
  F[f'apply_buckets_{c}']=lambda q,c=c:{'o':tft.apply_buckets(q[c],[[1.,2.]])}
for c in ('x','sx','rx'):
  for m in ('scale_to_0_1_per_key','scale_to_z_score_per_key','scale_by_min_max_per_key'):
    kc={'x':'k','sx':'ss','rx':'rs'}[c]
    F[f'{m}_{c}']=lambda q,m=m,c=c,kc=kc:{'o':getattr(tft,m)(q[c],q[kc])}
    F[f'{m}_{c}_file']=lambda q,m=m,c=c,kc=kc:{'o':getattr(tft,m)(q[c],q[kc],key_vocabulary_filename='a')}
for c in ('x','sx'):
    kc={'x':'k','sx':'ss','rx':'rs'}[c]
    F[f'bpk_{c}']=lambda q,c=c,kc=kc:{'o':tft.bucketize_per_key(q[c],q[kc],3)}
F['interp']=lambda q:{'o':tft.apply_buckets_with_interpolation(q['x'],[[1.,2.,4.]])}
for c in ('s','sv','ss','rs','i','si'):
  F[f'voc_{c}']=lambda q,c=c:{'o':tft.compute_and_apply_vocabulary(q[c])}
  F[f'voc_{c}_oov']=lambda q,c=c:{'o':tft.compute_and_apply_vocabulary(q[c],num_oov_buckets=2,top_k=2)}
F['voc_w']=lambda q:{'o':tft.compute_and_apply_vocabulary(q['s'],weights=q['w'])}
F['voc_l']=lambda q:{'o':tft.compute_and_apply_vocabulary(q['s'],labels=q['lab'])}
F['voc_lw']=lambda q:{'o':tft.compute_and_apply_vocabulary(q['s'],labels=q['lab'],weights=q['w'])}
F['voc_tfr']=lambda q:{'o':tft.compute_and_apply_vocabulary(q['s'],file_format='tfrecord_gzip')}
F['voc_res']=lambda q:{'o':tft.compute_and_apply_vocabulary(q['s'],reserved_tokens=['a','b'])}
F['tfidf']=lambda q:dict(zip('ab',tft.tfidf(q['si'],5)))
F['tfidf2']=lambda q:dict(zip('ab',tft.tfidf(tft.compute_and_apply_vocabulary(q['ss']),tft.get_num_buckets_for_transformed_feature(tft.compute_and_apply_vocabulary(q['ss'])))))
F['ngrams']=lambda q:{'o':tft.ngrams(q['ss'],(1,2),' ')}
F['bow']=lambda q:{'o':tft.bag_of_words(q['ss'],(1,2),' ')}
F['wc']=lambda q:{'o':tft.word_count(q['ss'])}
F['wcr']=lambda q:{'o':tft.word_count(q['rs'])}
F['dd']=lambda q:{'o':tft.deduplicate_tensor_per_row(q['ss'])}
F['ddd']=lambda q:{'o':tft.deduplicate_tensor_per_row(q['sv'])}
F['seg']=lambda q:{'o':tft.segment_indices(tf.constant([0,0,1]))}
F['stds']=lambda q:{'o':tft.sparse_tensor_to_dense_with_shape(q['sx'],[None,3])}
F['left']=lambda q:{'o':tft.sparse_tensor_left_align(q['sx'])}
F['hash']=lambda q:{'o':tft.hash_strings(q['s'],5)}
F['hist']=lambda q:{'o':tft.histogram(q['x'],[1.,2.])[0]}
F['histc']=lambda q:{'o':tft.histogram(q['s'],categorical=True)[1]}
F['cov']=lambda q:{'o':tft.covariance(q['xv'],tf.float32)}
F['pca']=lambda q:{'o':tft.pca(q['xv'],2,tf.float32)}
F['cpk']=lambda q:{'o':tft.count_per_key(q['k'])[1]}
F['est']=lambda q:{'o':tft.estimated_probability_density(q['x'])}
F['estc']=lambda q:{'o':tft.estimated_probability_density(q['s'],categorical=True)}
F['size']=lambda q:{'o':tft.size(q['x'])+tft.size(q['sx'])}
