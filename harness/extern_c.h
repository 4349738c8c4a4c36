/* What libs_thread.h declares, as a program in C++ declares what was compiled as C. */
#ifdef __cplusplus
extern "C" {
#include "libs_thread.h"
}
#endif
