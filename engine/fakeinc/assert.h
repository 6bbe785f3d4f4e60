#ifndef VP_ASSERT
#define VP_ASSERT
void __vp_assert(_Bool c);
#define assert(e) __vp_assert((_Bool)(e))
#endif
