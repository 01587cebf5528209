import json
Q="qsbr_ref_real.qstate"; PP="qsbr_ref_real.pptr"; PK="qsbr_ref_real.park"; PS="qshard.ptrs"; BM="qshard.bitmap"
ret=lambda msg,need,**k: dict(on="ret",msg=msg,need=need,**k)
slot={"cell":["param:0",PP]}
spec=dict(opaque=["crc32c_u64"],anchors=[Q,PP,PK,PS,BM],keep=[Q,PS,BM],volatile=[Q,BM,PS],
 entries=[
 dict(fn="vp_update",params=["qsbr_ref_real"],checks=[ret("a thread's announcement is not recorded",{"all":[{"rel":[{"stored":Q},"==","param:1"]},{"rel":[{"storedbase":Q},"==","param:0"]}]})]),
 dict(fn="vp_park",params=["qsbr_ref_real"],checks=[ret("a parked thread still holds up the wait",{"rel":[{"cell":[slot,"+0"]},"==",{"cell":["param:0",PK]}]})]),
 dict(fn="vp_resume",params=["qsbr_ref_real"],checks=[ret("a resumed thread is not waited for",{"rel":[{"cell":[slot,"+0"]},"==","param:0"]})]),
 dict(fn="vp_register",params=["qsbr","qsbr_ref_real"],checks=[
   dict(on="store",field=BM,msg="a claim can overwrite one made by another thread at the same time",need={}),
   ret("the slot that names the thread is not the one claimed",{"same_bit":[BM,PS]},unless={"rel":["ret","==","const:0"]}),
   dict(on="store",field=PS,msg="a slot is written before it is claimed",need={"has_stored":BM}),
   ret("registration reports success for a thread that will not be waited for",{"all":[{"has_stored":BM},{"rel":[{"stored":PS},"==","param:1"]},{"rel":[{"cell":["param:1",PK]},"==","param:0"]}]},unless={"rel":["ret","==","const:0"]})]),
 dict(fn="vp_unregister",tags={BM:"^bm"},params=["qsbr","qsbr_ref_real"],checks=[
   dict(on="rmw",field=BM,msg="a slot is given back while it still names the leaving thread",need={"rel":[{"stored":PS},"==","param:0"]}),
   dict(on="store",field=BM,msg="leaving can overwrite a claim made by another thread at the same time",need={}),
   ret("the slot given back is not the leaving thread's",{"same_bit":[BM,PS]}),
   ret("a leaving thread's slot is not given back",{"has_stored":BM}),
   ret("a leaving thread does not wait for a waiter that may be reading its record",{"rel":[{"tagged":"^bm"},"==","const:0"]})]),
 dict(fn="vp_wait",params=["qsbr"],masks={"bitmap":BM,"slots":PS,"state":Q,"target":"param:1"},facts=[["I","<","const:32"],["const:0","<=","I"],["B","<","const:23"],["const:0","<=","B"]],checks=[
   ret("the wait ends although a registered thread neither left nor announced the new table",{"called":"passed"}),
   {"on":"load","field":Q,"msg":"a slot that is claimed but does not name its thread yet is followed","need":{"rel":["base","!=","const:0"]}},
   {"on":"load","field":PS,"msg":"threads are examined before parked ones can be recognised","need":{"all":[{"rel":[{"stored":Q},"==","param:1"]},{"rel":[{"storedbase":Q},"==","param:0"]}]}},
   ]),
 ])
json.dump(spec,open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../spec/recl_wh.json','w'),indent=1)
