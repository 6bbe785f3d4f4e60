#ifndef VP_STDINT
#define VP_STDINT
typedef signed char int8_t; typedef unsigned char uint8_t;
typedef short int16_t; typedef unsigned short uint16_t;
typedef int int32_t; typedef unsigned int uint32_t;
typedef long int64_t; typedef unsigned long uint64_t;
typedef unsigned long uint_fast16_t; typedef unsigned long uint_fast32_t;
typedef long intmax_t; typedef unsigned long uintmax_t;
typedef unsigned long uintptr_t; typedef long intptr_t;
#define INT32_MAX 2147483647
#define INT32_MIN (-2147483647-1)
#define UINT8_MAX 255
#define UINT16_MAX 65535
#define UINT32_MAX 4294967295U
#define UINT64_MAX 18446744073709551615UL
#define UINTMAX_MAX 18446744073709551615UL
#define UINT_FAST16_MAX 18446744073709551615UL
#define SIZE_MAX 18446744073709551615UL
#endif
