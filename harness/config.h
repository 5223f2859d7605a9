/* Selects the platform path of the code compiled after this: system headers
 * are included before changing what identifies the platform. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <limits.h>
#include <assert.h>
#ifdef VF_PORTABLE
#undef __GNUC__
#undef __i386__
#undef __x86_64__
#endif
#ifdef VF_MSVC
#undef __GNUC__
#define _MSC_VER 1900
#define _int64 long long
#define _int64_t long long
#if SIZE_MAX == UINT64_MAX
#define _WIN64 1
#define _M_X64 100
#else
#define _M_IX86 600
#endif
#undef __i386__
#undef __x86_64__
#endif
