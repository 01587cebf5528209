#include "BTreeOLC/BTreeOLC.h"
template struct btreeolc::BTree<uint64_t, uint64_t>;
