import json
LE="limbo_group::limbo_element"
PTR,U,U64=LE+".ptr_",LE+".u_",LE+".u_#64"
early="an object is released although a reader that was inside when it was handed over may still be"
need={"rel":[{"loaded":U64},"<",{"tagged":"active"}]}
freechk=[{"on":"call","fn":"free","msg":early,"need":need},{"on":"call","fn":"[?]","msg":early,"need":need},
 {"on":"store","field":"threadinfo.pool_","msg":early,"need":need},
 {"on":"ret","unless":{"not_stored":PTR},"msg":"the objects not yet released lose the epoch in front of them","need":{"rel":[{"storedidx":PTR},"==",{"storedidx":U64}]}},
 {"on":"store","field":U,"bits":64,"msg":"the epoch left in front of the objects not yet released is not theirs","need":{"rel":["val","==",{"loaded":U64}]}}]
assume=[{"field":PTR,"reset":"limbo_group.next_","rel":["val","==","const:0"]}]
raised={"on":"ret","msg":"a section starts without announcing the current epoch","need":{"rel":[{"cell":["param:0","threadinfo.gc_epoch_"]},"==",{"tagged":"cur"}]}}
left={"on":"ret","msg":"a section ends without withdrawing its epoch","need":{"rel":[{"cell":["param:0","threadinfo.gc_epoch_"]},"==","const:0"]}}
def retire(n): 
  g={"storedbase":PTR}
  return [
  {"on":"ret","msg":"the object handed over is not kept for release","need":{"rel":[{"stored":PTR},"==","param:1"]}},
  {"on":"ret","msg":"an object is not labelled with the epoch in which it was handed over","need":{"rel":[{"cell":[g,"limbo_group.epoch_"]},"==",{"tagged":"cur"}]}},
  {"on":"store","field":PTR,"unless":{"rel":["val","==","const:0"]},"msg":"an object is not labelled with the epoch in which it was handed over","need":{"any":[
    {"all":[{"rel":[{"stored":U64},"==",{"tagged":"cur"}]},{"rel":[{"stored":PTR},"==","const:0"]},{"rel":["idx",">",{"storedidx":U64}]},{"rel":["base","==",{"storedbase":U64}]}]},
    {"all":[{"rel":[{"cell":["base","limbo_group.epoch_"]},"==",{"tagged":"cur"}]},{"rel":[{"cell":["base","limbo_group.head_"]},"!=",{"cell":["base","limbo_group.tail_"]}]}]}]}}]
adv=[{"on":k,"field":"@"+g,"msg":"a table operation changes the global epoch","need":{}} for k in ("store","rmw","cas") for g in ("globalepoch","active_epoch")]
spec=dict(opaque=["fprintf","threadinfo::refill_pool","threadinfo::report_rcu*"],first=["@threadinfo::allthreads"],next=["threadinfo.next_"],witness_field=["threadinfo.gc_epoch_"],
 volatile=["@globalepoch","@active_epoch"],tags={"@globalepoch":"cur","@active_epoch":"active"},
 anchors=["threadinfo.gc_epoch_","limbo_group.epoch_","limbo_group.head_","limbo_group.tail_",PTR,U],
 keep=[PTR,U64],keep_load=[U64],facts=[["r","!=","const:0"]],
 entries=[
 dict(fn="vp_min_epoch",checks=[{"on":"ret","msg":"the epoch up to which objects may be released is later than that of a reader still inside","need":{"rel":["ret","<=","r"]}}]),
 dict(fn="vp_register",keep=["@threadinfo::allthreads"],checks=[
   {"on":"store","field":"@threadinfo::allthreads","msg":"a registration can overwrite one made by another thread at the same time","need":{}},
   {"on":"cas","field":"@threadinfo::allthreads","msg":"a registration drops threads already registered","need":{"rel":[{"cell":["val","threadinfo.next_"]},"==","old"]}},
   {"on":"ret","msg":"a thread is not registered","need":{"rel":[{"stored":"@threadinfo::allthreads"},"==","ret"]}}]+adv),
 dict(fn="vp_start",params=["threadinfo"],checks=[raised]+adv),
 dict(fn="vp_stop",params=["threadinfo"],checks=[left]+freechk+adv,assume=assume),
 dict(fn="vp_quiesce",params=["threadinfo"],checks=freechk+adv,assume=assume),
 ]+[dict(fn=f,params=["threadinfo"],checks=retire(i)+adv) for f,i in (("vp_free",1),("vp_pool_free",1),("vp_callback",1))])
json.dump(spec,open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../spec/recl_mt.json','w'),indent=1)
