#ifdef VP_SYMBOLIC
/* contract of fastapprox' fastpow, proved of the real code by the job fastpow-contract:
 * x in [0.0005, 1.1], p in [0, 1]  ==>  0 <= fastpow(x,p) <= 8 */
float __wrap_fastpow(float x, float p)
{
  vp_assert(x >= 0.0005f && x <= 1.1f, "fastpow base within its contract");
  vp_assert(p >= 0.0f && p <= 1.0f, "fastpow exponent within its contract");
  return vp_nd_f(0.0f, 8.0f);
}
#endif
