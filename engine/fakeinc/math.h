#ifndef VP_MATH
#define VP_MATH
double sqrt(double x); double log2(double x); double fabs(double x); double floor(double x); double ceil(double x);
#endif
