#include "BTreeOLC/BTreeOLC_child_layout.h"
template struct btreeolc::BTree<uint64_t, uint64_t>;
