/* instantiation of the /repo shuffling template and the derived draws of random.h */
#include <vl/random.h>
#define VL_SHUFFLE_prefix vs
#define VL_SHUFFLE_type double
#include <vl/shuffle-def.h>
void *vs_all[] = {(void*)vs_shuffle, (void*)vl_rand_uindex, (void*)vl_rand_uint64, (void*)vl_rand_int63, (void*)vl_rand_int31, (void*)vl_rand_real1, (void*)vl_rand_real2, (void*)vl_rand_real3, (void*)vl_rand_res53};
