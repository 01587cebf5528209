#include "BLinkTree/b_link_tree.h"
template class BLinkTree<unsigned long, unsigned long, StandardSharedMutex>;
