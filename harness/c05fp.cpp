// C05, bit-precise part: the weight in IEEE double arithmetic, for every pair of doubles.
// Every function vpq_<label> returns 1 when the label's statement is broken; vp/fp.py asks the solver for such an input.
#include "mps.hpp"
using OpenMps::Particle;
static inline bool Usable(double r, double re) { return (re > 0) && (re < __builtin_inf()) && (r == r); }
extern "C" int vpq_weight_is_a_number(double r, double re)
{
	const double w = Particle::W(r, re);
	return Usable(r, re) && !(w == w);
}
extern "C" int vpq_weight_never_negative(double r, double re)
{
	return Usable(r, re) && (Particle::W(r, re) < 0);
}
extern "C" int vpq_weight_zero_outside(double r, double re)
{
	return Usable(r, re) && !((0 < r) && (r < re)) && !(Particle::W(r, re) == 0);
}
#ifdef VP_NATIVE
extern "C" void vp_main()
{
	const double a = vp_real("x0", 0, 0), b = vp_real("x1", 0, 0);
	vp_check(!vpq_weight_is_a_number(a, b), "weight is a number");
	vp_check(!vpq_weight_never_negative(a, b), "weight never negative");
	vp_check(!vpq_weight_zero_outside(a, b), "weight zero outside");
}
#endif
