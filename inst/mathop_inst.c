/* emits the inline helpers of vl/mathop.h so that they are translated; no code of its own */
#include <vl/mathop.h>
void const *const vl_mathop_inst[] = {
  (void const*) vl_fast_sqrt_ui8, (void const*) vl_fast_sqrt_ui16, (void const*) vl_fast_sqrt_ui32, (void const*) vl_fast_sqrt_ui64,
  (void const*) vl_mod_2pi_f, (void const*) vl_mod_2pi_d, (void const*) vl_floor_f, (void const*) vl_floor_d, (void const*) vl_fast_sqrt_f, (void const*) vl_fast_atan2_f, (void const*) vl_fast_atan2_d } ;
