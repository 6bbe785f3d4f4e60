#ifndef VP_STDBOOL
#define VP_STDBOOL
#define bool _Bool
#define true ((_Bool)1)
#define false ((_Bool)0)
#endif
