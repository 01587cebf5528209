import json
cov={"op":"covered","obj":0,"bit":"U1","field":"wormleaf.next"}
clrs={"op":"clear","obj":0,"bit":"U5"}
clrf={"op":"clear","obj":0,"bit":"U6"}
KEEP=["wormleaf.prev","wormleaf.next","wormleaf.anchor"]
W=lambda i:{"op":"write","obj":i,"keep":KEEP}
stale={"op":"need","obj":0,"bit":"U7","is":False,"rule":"stale-table","msg":"node found through an older hash table is locked after the operation gave up its protection of that table"}
G_META=0;G_UPD1=1;G_PEND=2;G_WAIT=3;G_UPD2=4
nometa={"op":"gneed","bit":G_META,"is":False,"rule":"wait-order","msg":"waits for a lock while holding the metadata lock, which comes last in the lock order"}
noprot={"op":"need_unprotected","obj":0,"rule":"wait-order","msg":"blocks on a lock while still announced as a reader: the holder may be waiting for all readers to move on"}
# a failed attempt may be repeated once; after that the reader must announce a newer version (or leave) before it tries again
tries=[{"op":"need","obj":0,"bit":"U10","is":False,"rule":"wait-order","msg":"keeps trying for a lock while still announced under an old version: the holder may be waiting for all readers to move on"},{"op":"set","obj":0,"bit":"U10","if_has":"U9"},{"op":"set","obj":0,"bit":"U9"}]
tried=[{"op":"clear","obj":0,"bit":"U9"},{"op":"clear","obj":0,"bit":"U10"}]
def lk(op,**k): return (tries if 'ret' in k else [nometa,noprot])+[stale,dict({"op":op,"obj":0},**k),cov,clrs,clrf]+(tried if 'ret' in k else [])+[{"op":"gset","bit":G_META,"if_field":"wormhole.metalock"}]
G_META=0;G_UPD1=1;G_PEND=2;G_WAIT=3
metamsg="hash table or sibling back-link is changed without holding the metadata lock"
def meta(): return {"op":"gneed","bit":G_META,"rule":"meta-lock","msg":metamsg}
kvuse=lambda i:{"op":"kvuse","obj":i,"tag":3,"rule":"unlocked-read","msg":"item of a leaf is used after the leaf's lock was released"}
prims={
 "rwlock_trylock_read":lk("rdlock",ret="true"),"rwlock_trylock_read_nr":lk("rdlock",ret="true"),"rwlock_trylock_read_lp":lk("rdlock",ret="true"),
 "rwlock_lock_read":lk("rdlock",parked_ok=True),
 "rwlock_trylock_write":lk("trylock",ret="true"),"rwlock_trylock_write_nr":lk("trylock",ret="true"),"rwlock_trylock_write_hp":lk("trylock",ret="true"),"rwlock_trylock_write_hp_nr":lk("trylock",ret="true"),
 "rwlock_lock_write":lk("lock",parked_ok=True),"rwlock_lock_write_hp":lk("lock",parked_ok=True),
 "rwlock_unlock_write":[{"op":"gneed","bit":G_UPD2,"if_g":G_PEND,"if_field":"wormhole.metalock","rule":"table-update","msg":"metadata lock is released although the change was not yet applied to the hash table readers have left"}]+[{"op":"gclear","bit":i,"if_field":"wormhole.metalock"} for i in range(5)]+[{"op":"need","obj":0,"bit":"U2","is":False,"rule":"version-not-raised","msg":"leaf is unlocked although its key range changed and its version was not raised"},{"op":"unlock","obj":0},{"op":"clear","obj":0,"bit":"U1"}],
 "rwlock_unlock_read":[{"op":"rdunlock","obj":0}],
 "rwlock_init":[{"op":"nop"}],"spinlock_init":[{"op":"nop"}],
 "spinlock_lock":[{"op":"need","obj":0,"bit":"U4","is":False,"rule":"double-lock","msg":"sort lock taken twice"},{"op":"set","obj":0,"bit":"U4"}],
 "spinlock_unlock":[{"op":"need","obj":0,"bit":"U4","rule":"unlock-not-held","msg":"sort lock released that is not held"},{"op":"clear","obj":0,"bit":"U4"}],
 "qsbr_park":[{"op":"epoch_exit"},{"op":"clearall","bit":"U9"},{"op":"clearall","bit":"U10"}],"qsbr_resume":[{"op":"epoch_enter"}],
 "qsbr_update":[{"op":"announce","val":1,"tag":2,"bit":"U2","ok":"U8","stale":"U7","progress":"U9|U10"}],
 "qsbr_wait":[{"op":"need_ver","val":1,"tag":2,"off":1,"bit":"U1","rule":"grace-period","msg":"waits for a grace period without having announced the new version itself (or not for the new version): waits forever or for nothing"},
    {"op":"clearall","where":"U4","tag":5,"bit":"U3"},{"op":"clearall","tag":5,"bit":"U4"},{"op":"gset","bit":G_WAIT}],
 "wormhmap_load":[{"op":"take","tag":5},{"op":"clear","obj":"ret","bit":"OWN"},{"op":"set","obj":"ret","bit":"U3"}],
 "wormhmap_switch":[{"op":"take","tag":5},{"op":"clear","obj":"ret","bit":"OWN"}],
 "wormhmap_store":[meta(),{"op":"need","obj":1,"bit":"U1","rule":"version-not-raised","msg":"hash table is made visible without having been given the new version"},
    {"op":"gnone","where":"U2","tag":0,"rule":"version-not-raised","msg":"hash table is made visible before the version of a leaf whose key range changed was raised"},
    {"op":"gneed","bit":G_UPD1,"rule":"table-update","msg":"hash table is made visible without the change having been applied to it"},
    {"op":"setall","where":"U3","not":1,"tag":5,"bit":"U4"},{"op":"set","obj":1,"bit":"U3"},{"op":"gset","bit":G_PEND},{"op":"gclear","bit":G_WAIT}],
 "wormhmap_version_load":[{"op":"tagval","of":0,"tag":2,"latest":True,"clearall":"U8"}],
 "wormhmap_version_store":[meta(),{"op":"need","obj":0,"bit":"U3","is":False,"rule":"table-update","msg":"version of a hash table is changed while readers can use it"},
    {"op":"need_ver","val":1,"tag":2,"off":1,"rule":"version-not-raised","msg":"hash table gets a version other than the current version plus one"},{"op":"set","obj":0,"bit":"U1"}],
 "wormleaf_version_load":[{"op":"tagval","of":0,"tag":4,"locked_tag":1}],
 "wormleaf_version_store":[meta(),{"op":"need_locked","obj":0},{"op":"need_ver","val":1,"tag":2,"off":1,"rule":"version-not-raised","msg":"leaf gets a version other than the current version plus one"},
    {"op":"clear","obj":0,"bit":"U2"},{"op":"set","obj":0,"bit":"U3"}],
 "wormhole_meta_lcp":[{"op":"need","obj":0,"bit":"U2","rule":"stale-table","msg":"hash table is searched before the operation announced its version (the table may be rewritten meanwhile)"}],
 "wormhole_meta_down":[{"op":"need","obj":0,"bit":"U2","rule":"stale-table","msg":"hash table is searched before the operation announced its version (the table may be rewritten meanwhile)"},{"op":"snap","of":0,"tag":2}],
 "wormleaf_match_hs":[{"op":"read","obj":0,"hi":1}],
 "wormleaf_search_ih":[{"op":"read","obj":0}],
}
need_sorted=lambda i:{"op":"need","obj":i,"bit":"U5","rule":"unsorted-search","msg":"leaf is searched in key order without having been sorted under this lock"}
upd=lambda mk:[meta(),{"op":"need","obj":0,"bit":"U3","is":False,"rule":"table-update","msg":"hash table is changed while readers can use it"},
   {"op":"set","obj":1,"bit":"U2","unless_has":"U3"},
   {"op":"gset","bit":G_UPD2,"if_g":G_PEND},{"op":"gset","bit":G_UPD1,"unless_g":G_PEND}]
prims["wormmeta_split"]=upd(1)+[{"op":"escape","obj":2},{"op":"escape","obj":1}]
prims["wormmeta_merge"]=upd(0)+[{"op":"own","obj":1,"if_g":G_PEND}]
for f in("wormleaf_search_ss","wormleaf_seek","wormleaf_seek_end"): prims[f]=[need_sorted(0),{"op":"read","obj":0}]
prims["wormhole_split_cut_search1"]=[need_sorted(0),{"op":"read","obj":0}]
prims["wormleaf_sync_sorted"]=[{"op":"need_locked","obj":0,"or_shared_bit":"U4","rule":"unlocked-write"},{"op":"set","obj":0,"bit":"U5"}]
prims["wormleaf_kv_at_ih"]=[{"op":"read","obj":0},{"op":"kvread","obj":0,"tag":3}]
prims["wormleaf_kv_at_is"]=[need_sorted(0)]+prims["wormleaf_kv_at_ih"]
prims["wormleaf_kv_at_is1"]=[need_sorted(0),{"op":"read","obj":0},{"op":"kvread","obj":0,"tag":3}]
prims["wormleaf_insert"]=[{"op":"need_below","obj":0,"field":"wormleaf.nr_keys","cap":"wormleaf.ss","elem":1,"rule":"insert-when-full","msg":"key is added to a leaf without having established that it has a free slot"},W(0),{"op":"escape","obj":1},clrs]
prims["wormleaf_update"]=[W(0),{"op":"escape","obj":2},{"op":"take"}]
prims["wormleaf_remove_ih"]=[W(0),{"op":"gset","bit":9},{"op":"take"}]
prims["wormleaf_remove"]=prims["wormleaf_remove_ih"]
prims["wormleaf_remove_is"]=[need_sorted(0),W(0),{"op":"gset","bit":9},{"op":"take"}]
prims["wormleaf_merge"]=[{"op":"need","obj":1,"bit":"U6","rule":"insert-when-full","msg":"leaves are merged without looking, after both were locked, at how many keys they hold"},W(0),{"op":"read","obj":1},clrs,{"op":"range","lo":1,"hi":1}]
prims["wormhole_split_leaf_move1"]=[W(0),W(1),{"op":"escape","obj":4},{"op":"set","obj":0,"bit":"U5"}]
prims["wormleaf_split_undo"]=[W(1),{"op":"dispose","obj":2},{"op":"clear","obj":2,"bit":"U2"},{"op":"own","obj":3}]
prims["wormhole_iter_leaf_sync_sorted"]=None; del prims["wormhole_iter_leaf_sync_sorted"]
prims["slab_alloc_safe"]=[{"op":"alloc","own":True,"maybe_null":True}]
prims["slab_free_safe"]=[{"op":"dispose","obj":1,"or_g":[G_WAIT,G_UPD2]}]
prims["free"]=[{"op":"dispose","obj":0,"lax":True}]
prims["*kvmap_mm.in"]=[kvuse(0),{"op":"alloc","own":True,"maybe_null":True,"node":False}]
prims["*kvmap_mm.free"]=[{"op":"dispose","obj":0}]
prims["*kvmap_mm.out"]=[kvuse(0)]
prims["*param"]=[kvuse(0)]
prims["wormleaf_prefetch"]=[{"op":"nop"}]
prims["wormhole_slab_reserve"]=[{"op":"range","lo":0,"hi":1}]
for f in ("kv_dup2_key","kv_refill","kref_ref_kv","kvref_ref_kv","kv_kref","kv_key_lcp"): prims[f]=None
prims={k:v for k,v in prims.items() if v is not None}
P=["wormhole_get","wormhole_probe","wormhole_put","wormhole_merge","wormhole_inpr","wormhole_inpw","wormhole_del","wormhole_delr"]
it=dict(private_params=[0],held_off=16,epoch=1)
ent=[{"fn":f,"epoch":1} for f in P]
ent+=[{"fn":f.replace("wormhole_","whsafe_"),"epoch":0} for f in P]
ent+=[dict(it,fn=f) for f in ["wormhole_iter_seek","wormhole_iter_valid","wormhole_iter_peek","wormhole_iter_kref","wormhole_iter_kvref","wormhole_iter_skip1","wormhole_iter_skip","wormhole_iter_next","wormhole_iter_inp","wormhole_iter_park","wormhole_iter_destroy"]]
ent+=[dict(it,fn="whsafe_iter_seek",epoch=0,exit_epoch=1),dict(it,fn="whsafe_iter_park",exit_epoch=0),dict(it,fn="whsafe_iter_destroy",exit_epoch=0)]
ent+=[{"fn":"wormhole_iter_create","epoch":1,"exit_owned_ret":True},{"fn":"wormhole_ref","epoch":0,"exit_owned_ret":True}]
spec={"unit":"Wormhole","nodes":["wormleaf"],"lockword":["wormleaf.leaflock","wormleaf.sortlock"],"exclusive":True,"locked_read":True,"keep_src":True,"epoch":True,"epoch_exact":True,"own_check":True,"own_malloc":True,
 "free_check":True,"read_free":["wormhole.*","wormhole_iter.*","wormref.*","wormleaf.anchor","kv*","qsbr*"],"write_free":["wormhole.*","wormhole_iter.*","wormleaf.prev"],
 "wait_down":["wormleaf.next"],"wait_ok":["wormhole.metalock"],"immortal_fields":["wormhole.metalock"],"held_fields":["wormhole_iter.leaf"],"held_bits":[{"bit":"U5","rule":"unsorted-search","msg":"iterator is left on a leaf that was not sorted under its lock"}],
 "on_write":[{"field":"wormleaf.next","set":"U2"},{"field":"wormleaf.prev","gneed":G_META,"rule":"meta-lock","msg":metamsg},{"field":"wormleaf.ss","shared_with":"U4"},{"field":"wormleaf.nr_sorted","shared_with":"U4"}],
 "access_need":{"bit":"U1","rule":"range-not-checked","msg":"leaf is used without checking, after it was locked, that its version is not newer than the hash table it was found through"},
 "cmp_set":[{"tag":1,"bit":"U1"},{"tag":4,"bit":"U8"},{"tag":6,"tag2":7,"bit":"U5"}],
 "exit_clear":[{"bit":"U4","rule":"lock-leak","msg":"sort lock still held at return"}],
 "on_read":[{"field":"wormleaf.nr_keys","set":"U6","tag":6,"free_if_src_held":True},{"field":"wormleaf.nr_sorted","tag":7}],
 "prims":prims,
 "entries":ent}
json.dump(spec,open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../spec/wormhole.json','w'),indent=1)
