#include "wormhole/wh.c"
