/* instantiation of the /repo heap template as its own test does (double keys) */
#define VL_HEAP_prefix vh
#define VL_HEAP_type double
#include <vl/heap-def.h>
void *vh_all[] = {(void*)vh_push, (void*)vh_pop, (void*)vh_update};
