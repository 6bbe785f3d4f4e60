#ifndef VP_LIMITS
#define VP_LIMITS
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define UINT_MAX 4294967295U
#endif
