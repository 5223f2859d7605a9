/* Force-included: the headers of the library as another platform would see
 * them; the rest of the driver is compiled for this one. */
#include <pthread.h>
#include <sys/mman.h>
#include <signal.h>
#pragma push_macro("__GNUC__")
#pragma push_macro("__i386__")
#pragma push_macro("__x86_64__")
#include "config.h"
#include "tommyds/tommy.h"
#ifdef VF_MSVC
#undef _MSC_VER
#undef _WIN64
#undef _M_X64
#undef _M_IX86
#endif
#pragma pop_macro("__x86_64__")
#pragma pop_macro("__i386__")
#pragma pop_macro("__GNUC__")
