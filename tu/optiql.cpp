#include "OptiQL/Tree.cpp"
