// C05: the weight function and the reference constants.
// SCEN 0: weight.  SCEN 1: reference density (and diffusion constant) of the lattice.
#include "mps.hpp"
extern "C" void vp_main()
{
#if SCEN == 0
	const double inf = __builtin_inf();
	const int kind = vp_int("kind", 0, 3);
	double re = vp_real("re", 0, 1000);
	vp_assume(re > 0);
	double r = kind == 0 ? vp_real("r", -1000, 1000) : (kind == 1 ? inf : (kind == 2 ? -inf : vp_num(0.0)*(vp_int("sign", 0, 1) ? -1.0 : 1.0)));
	const double w = Particle::W(r, re);
	vp_out("w", w);
	vp_check(vp_isfinite(w) != 0, "finite");
	vp_le(0, w, "never negative");
	bool in = false;
	if (r > 0) { if (r < re) { in = true; } }
	if (in) { vp_eq(w*r, re - r, "inverse law"); vp_reach("inside"); }
	else { vp_check(w == 0, "zero outside"); vp_reach("outside"); }
	if (kind == 0)
	{
		const double r2 = vp_real("r2", 0, 1000);
		if (r > 0)
		{
			if (r2 >= r) { vp_le(Particle::W(r2, re), w, "never increases with distance"); vp_reach("farther"); }
		}
	}
#else
	EnvArgs ea;
	const double spacings[4] = {1, 0.0078125, 3, 0.1};
	ea.l0 = spacings[vp_int("spacing", 0, SPACINGS)];
	ea.re = vp_real("ratio", 1, MAXRATIO);
	const auto env = MakeEnv(ea);
	double n = 0, l = 0;
	constexpr int R = static_cast<int>(MAXRATIO) + 2;
	for (int i = -R; i <= R; i++)
	{
		for (int j = -R; j <= R; j++)
		{
#ifdef DIM3
			for (int k = -R; k <= R; k++)
#else
			const int k = 0;
#endif
			{
				const int s = i*i + j*j + k*k;
				if (s == 0) { continue; }
				const double d = vp_sqrt(s);      // distance in spacings
				if (d < ea.re)
				{
					const double w = ea.re/d - 1;
					n += w;
					l += w*s;
				}
			}
		}
	}
	vp_eq(env.N0(), n, "reference density");
	vp_out("n0", env.N0());
#ifndef MPS_HL
	if (n > 0)
	{
		// at a ratio of exactly 1 there is no neighbour and no average
		vp_eq(env.Lambda()*n, l*ea.l0*ea.l0, "diffusion constant");
		vp_reach("lambda");
	}
#endif
	vp_eq(env.R_e, ea.re*ea.l0, "influence radius");
	if (ea.re > 1.5) { vp_reach("beyond the diagonal"); }
#endif
}
