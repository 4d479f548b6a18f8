#include "vp.h"
#include "fastapprox/fastpow.h"
void vp_main(void)
{
  float x = vp_f("x", 0.0005f, 1.1f), p = vp_f("p", 0.0f, 1.0f);
  float r = fastpow(x, p);
  vp_assert(r >= 0.0f && r <= 8.0f, "fastpow result within its contract");
}
