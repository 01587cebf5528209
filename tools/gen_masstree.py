#!/usr/bin/env python3
"""spec/masstree.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NV, NB, LF, IN, TC, TI = "nodeversion::", "Masstree::node_base::", "Masstree::leaf::", "Masstree::internode::", "Masstree::tcursor::", "threadinfo::"
nop = [{"op": "nop"}]
L, I = "Masstree::leaf*.", "Masstree::internode*."
LOCK = [{"op": "lock", "obj": 0}] + [{"op": "clear", "obj": 0, "bit": b, "if_new": False} for b in ("U1", "U2", "U3", "U4", "U5", "U6", "U7", "U9", "U10", "U11", "NOTFULL")]
def mark(obs=False, split=False):
    return ([{"op": "need_locked", "obj": 0, "rule": "unlocked-write"}, {"op": "set", "obj": 0, "bit": "U2"}] + ([{"op": "set", "obj": 0, "bit": "U3"}] if split else []) + ([{"op": "set", "obj": 0, "bit": "OBS"}] if obs else []))
UNLOCK = [{"op": "need", "not_local": True, "obj": 0, "if_bit": "U8", "bit": "U3", "rule": "retire-linked", "msg": "a removed leaf is unlocked before it was taken out of the list of leaves"},
          {"op": "gneed", "obj": 0, "if_bit": "OBS", "not_local": True, "bit": 0, "is": False, "rule": "retire-linked", "msg": "a removed node is unlocked while it is still linked into its parent"},
          {"op": "publish", "not_local": True, "obj": 0}, {"op": "unlock", "not_local": True, "obj": 0}]
ALLOC = [{"op": "alloc"}] + [{"op": "set", "obj": "ret", "bit": b} for b in ("U1", "U2", "U3", "U4", "U6", "U7")]
def need_(b): return {"op": "need", "obj": 0, "bit": b, "rule": "slot-not-confirmed", "msg": "a leaf is handed to the caller for changing without having been fully re-checked under its lock"}
prims = {
 NV + "stable": [{"op": "rlock", "obj": 0, "total": True, "tainted_ok": True}], NV + "stable_annotated": [{"op": "rlock", "obj": 0, "total": True, "tainted_ok": True}],
 NV + "has_changed": [{"op": "check", "obj": 0, "ver": 1, "ret": "false", "restart": True}, {"op": "set", "obj": 0, "bit": "U6"}],
 NV + "has_split": nop, NV + "simple_has_split": nop, NV + "locked": nop, NV + "inserting": nop, NV + "splitting": nop,
 NV + "deleted": [{"op": "livetest", "obj": 0, "via_ver": True}],
 NV + "isleaf": [{"op": "pure", "obj": 0, "via_ver": True}],
 NV + "is_root": [{"op": "touch", "obj": 0, "not_local": True}, {"op": "captest", "obj": 0, "via_ver": True, "full": False, "bit": "U9", "also_full": "U11"}],
 NV + "lock": LOCK,
 NV + "try_lock": [{"op": "trylock", "obj": 0, "ret": "true"}] + LOCK[1:],
 NV + "unlock": UNLOCK,
 NV + "mark_insert": mark(), NV + "mark_split": mark(split=True), NV + "mark_change": mark(),
 NV + "mark_deleted": mark(True) + [{"op": "gset", "bit": 0}], NV + "mark_deleted_tree": mark(True), NV + "mark_root": nop, NV + "mark_nonroot": nop,
 NV + "assign_version": [{"op": "lock", "obj": 0}], NV + "version_value": nop,
 **{"key_bound_%s::upper" % k: [{"op": "result", "lo": 0}, {"op": "read", "obj": 1, "field": "Masstree::internode.ikey0_"}, {"op": "read", "obj": 1, "field": "Masstree::internode.nkeys_"}] for k in ("binary", "linear")},
 **{"key_bound_%s::lower" % k: [{"op": "need", "obj": 1, "bit": "U11", "fresh_ok": True, "rule": "slot-not-confirmed", "msg": "the position in a leaf is computed before the permutation it is later checked against is read"}, {"op": "result"}, {"op": "read", "obj": 1, "field": "Masstree::leaf.ikey0_"}, {"op": "read", "obj": 1, "field": "Masstree::leaf.permutation_"}] for k in ("binary", "linear")},
 "vp_confirmed": [need_("U1"), need_("U6"), need_("U4")], NV + "unlocked_version_value": nop,
 NB + "parent": [{"op": "read", "obj": 0, "field": "node.parent_"}],
 NB + "set_parent": [{"op": "need", "obj": 0, "if_src_of": 1, "if_bit": "U3", "bit": b, "rule": "slot-not-confirmed", "msg": "an inner node is bypassed without testing under its lock that it is " + w} for b, w in (("U9", "still the root of its layer"), ("U10", "empty"))] + [{"op": "write", "obj": 0, "val": 1, "field": "node.parent_", "if_new": False}, {"op": "write", "obj": 0, "field": "node.parent_", "if_new": True}, {"op": "set", "obj": 0, "bit": "OBS", "if_src_of": 1, "if_has": "U2"}],
 NB + "prefetch_full": nop, LF + "prefetch": nop, IN + "prefetch": nop, "Masstree::leafvalue::prefetch": nop,
 LF + "make": ALLOC, IN + "make": ALLOC,
 LF + "ikey_bound": nop, LF + "full_unlocked_version_value": nop, LF + "full_version_value": nop, LF + "phantom_epoch": nop,
 LF + "size": [{"op": "read", "obj": 0, "field": "Masstree::leaf.permutation_"}, {"op": "tagval", "of": 0, "tag": 6, "locked_tag": 5}],
 IN + "size": [{"op": "read", "obj": 0, "field": "Masstree::internode.nkeys_"}, {"op": "tagval", "of": 0, "tag": 6, "locked_tag": 7}],
 LF + "assign_ksuf": [{"op": "write", "obj": 0, "field": "Masstree::leaf.ksuf_"}],
 LF + "deleted_layer": [{"op": "need_locked", "obj": 0, "rule": "unlocked-read"}, {"op": "captest", "obj": 0, "full": True, "bit": "U4"}],
 "Masstree::gc_layer_rcu_callback::make": nop,
 TI + "mark": nop, TI + "lock_fence": nop, TI + "stable_fence": nop, TI + "operation_timestamp": nop, TI + "observe_phantoms": nop,
 TI + "pool_deallocate_rcu": [{"op": "retire", "obj": 1}], TI + "pool_deallocate": [{"op": "free", "obj": 1, "strict": True}],
 TI + "deallocate": nop, TI + "deallocate_rcu": nop, TI + "rcu_register": nop, TI + "allocate": nop,
 TI + "rcu_start": [{"op": "epoch_enter"}], TI + "rcu_stop": [{"op": "epoch_exit"}],
}
def need(field, bit, rule, msg, **k): return dict(field=field, need=bit, rule=rule, msg=msg, **k)
LM = {"U1": ("slot-not-confirmed", "a leaf is changed without comparing its permutation, under the lock, with the one the position was computed from"),
      "U6": ("slot-not-confirmed", "a leaf is changed without re-checking, under the lock, that it was not split or changed since it was found"),
      "U4": ("slot-not-confirmed", "a leaf is changed without testing under its lock whether its whole layer was deleted")}
WR = [{"field": "node.parent_", "src_ok": True}]
for f, bs in (("lv_*", ("U1", "U6")), ("permutation_", ("U1", "U6", "U4")), ("ikey0_*", ("U1", "U6", "U4")), ("keylenx_*", ("U1", "U6", "U4"))):
    WR += [need(L + f, b, *LM[b]) for b in bs]
WR += [{"field": I + "child_*", "gclear": 0, "skip_if": "OBS"},
       {"field": L + "modstate_", "only_val": 0, "set": "U7"}, {"field": L + "modstate_", "only_val": 2, "set": "OBS"}]
for f in ("child_*", "nkeys_", "ikey0_*"):
    WR.append(need(I + f, "U1", "slot-not-confirmed", "a parent is changed without re-checking, after it was locked, that it is still the parent"))
    WR.append(need(I + f, "U2", "version-not-raised", "an inner node is changed without marking its version as changing", skip_if="OBS", unless_fn=TC + "redirect"))
WR += [need(L + "modstate_", "U2", "version-not-raised", "a leaf changes between insertion and removal mode without marking its version as changing", unless_val=2),
       need(L + "keylenx_*", "U2", "version-not-raised", "the meaning of an occupied slot is changed without marking the version as changing", unless_fn=LF + "assign"),
       need(L + "ikey0_*", "U7", "version-not-raised", "a slot of a leaf is reused for a new key although keys were removed from it and the version was not raised", fn=LF + "assign"),
       need(L + "permutation_", "U5", "version-not-raised", "a key is removed from a leaf without switching the leaf to removal mode", fn=TC + "finish_remove", skip_if="U2"),
       need(L + "ikey0_*", "NOTFULL", "insert-when-full", "a key is put into a leaf that was not shown to have room", fn=LF + "assign"),
       need(I + "ikey0_*", "NOTFULL", "insert-when-full", "a separator is put into an inner node that was not shown to have room", fn=IN + "assign")]
WR += [need(I + "nkeys_", "U3", "version-not-raised", "an inner node gives up entries in a split without being marked as splitting", fn=IN + "split_into"),
       need(L + "permutation_", "U3", "version-not-raised", "a leaf gives up entries in a split without being marked as splitting", fn=TC + "make_split", skip_if="NOTFULL"),
       need(I + "child_*", "U11", "retire-linked", "the root of a layer is taken apart although it was not shown to have a parent", if_bit="OBS")]
for b, w in (("U9", "still the root of its layer"), ("U10", "empty")):
    WR += [need(L + "modstate_", b, "slot-not-confirmed", "a layer is removed without testing under the lock that its leaf is " + w, only_val=2)]
WR += [{"field": L + "permutation_", "set": "NOTFULL"}, {"field": I + "nkeys_", "set": "NOTFULL"}]
REACH = [{"op": "touch", "obj": 0}] + [{"op": "alloc", "found": True, "as": "Masstree::node_base.reach_leaf"}, {"op": "rlock", "obj": "ret", "total": True, "noret": True, "verout": 2, "vsize": 4}]
spec = {
 "unit": "MassTree", "max_locks": 7, "copy_words": True, "live_by_version": True, "nodes": ["Masstree::leaf*", "Masstree::internode*", "Masstree::node_base*"],
 "lockword": ["nodeversion*.v_"],
 "widen": 4, "optimistic": True, "exclusive": True, "free_check": True, "epoch": True, "epoch_exact": True,
 "failure_strict": True, "taint_on_use": True, "keep_src": True, "handover": True,
 "handover_free": ["*parent_", "*next_*", "*prev_"],
 "live_test": True, "live_fields": [L + "permutation_", L + "lv_*", L + "keylenx_*"],
 "live_exempt": [LF + "stable_last_key_compare"],
 "child_fields": [I + "child_*"],
 "read_free": ["node.parent_", "*.next_*", "*.prev_", "*.phantom_epoch_*", "*.height_"],
 "read_free_fns": [TC + "gc_layer"],
 "write_free": ["*.next_*", "*.prev_", "*.phantom_epoch_*", "*.created_at_*"],
 "forget_fields": [I + "nkeys_", I + "height_", I + "child_*", I + "ikey0_*", L + "ikey0_*", L + "keylenx_*", L + "lv_*"],
 "wait_down": ["node.parent_", L + "lv_*"],
 "retire_obsolete": True, "obsolete_retire": True, "retired_obsolete_at_exit": True,
 "on_read": [{"field": L + "permutation_", "tag": 1, "free_tag": 2, "fn": TC + "find_locked", "free_set": "U11"}, {"field": L + "modstate_", "tag": 9}],
 "on_write": WR,
 "cmp_set": [{"tag": 1, "tag2": 2, "bit": "U1"}, {"tag": 9, "lt": 1, "bit": "U7"}, {"tag": 9, "lt": 0, "ne": True, "bit": "U5"}, {"self": True, "field": "node.parent_", "bit": "U1"}, {"tag": 5, "lt": 1, "bit": "U10"}, {"tag": 7, "lt": 1, "bit": "U10"}, {"tag": 5, "lt": 15, "bit": "NOTFULL"}, {"tag": 7, "lt": 15, "bit": "NOTFULL"}],
 "prims": prims,
 "prim_globs": {"Masstree::key::*": nop, "small_vector::*": nop, "stringbag::*": nop, "string_slice::*": nop, "lcdf::*": nop, "circular_int::*": nop, "Masstree::forward_scan_helper::mark_key_complete": nop, "kpermuter::insert_from_back": nop},
 "enter": {LF + "deallocate_rcu": [{"op": "set", "obj": 0, "bit": "U8", "if_has": "OBS"}]},
 "exit": {LF + "stable_last_key_compare": [{"op": "clear", "obj": 0, "bit": "U11"}], "btree_leaflink::unlink": [{"op": "set", "obj": 0, "bit": "U3"}]},
 "entries": [
  {"fn": "vp_reach_leaf", "epoch": 1},
 ],
}
json.dump(spec, open(os.path.join(V, "spec", "masstree.json"), "w"), indent=1)
def variant(name, prim, entries):
    w = dict(spec); w["prims"] = dict(prims); w["prims"].update(prim); w["entries"] = entries
    json.dump(w, open(os.path.join(V, "spec", name + ".json"), "w"), indent=1)
# lookups: the descent to a leaf is replaced by what vp_reach_leaf was shown to establish
variant("masstree_r", {NB + "reach_leaf": REACH}, [{"fn": "vp_find_locked", "epoch": 1, "private_params": [0]}, {"fn": "vp_get", "epoch": 1}, {"fn": "vp_search", "epoch": 1}])
# writers: the search for the leaf to change is replaced by what vp_find_locked was shown to establish
variant("masstree_w", {TC + "find_locked": [{"op": "alloc", "into": 0, "into_field": "Masstree::tcursor.n_", "havoc": True, "found": True, "locked": True, "as": "Masstree::tcursor.n_", "bits": ["U1", "U4", "U6"]}]},
        [{"fn": "vp_upsert"}, {"fn": "vp_remove", "epoch": 1}, {"fn": "vp_gc", "epoch": 1}])
