/* The implementation of libs_thread.h compiled as C; see extern_c.h. */
#define THREAD_IMPLEMENTATION
#include "libs_thread.h"
