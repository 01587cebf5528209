// stand-in for the debug helper header that /repo's FBTree refers to but does not contain
#pragma once
#define DEBUG_COND_ERROR(cond, msg) ((void)0)
