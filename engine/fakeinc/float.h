#ifndef VP_FLOAT
#define VP_FLOAT
#define DBL_MAX 1.7976931348623157e308
#endif
