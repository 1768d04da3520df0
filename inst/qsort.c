/* instantiation of the /repo sorting template */
#define VL_QSORT_prefix vq
#define VL_QSORT_type float
#include <vl/qsort-def.h>
void *vq_all[] = {(void*)vq_sort};
