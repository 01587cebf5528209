#include "ARTOLC/Tree.cpp"
