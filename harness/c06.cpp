// C06: particle number density = weight sum over all other live particles (plus the virtual particle's fill-up).
#include "mps.hpp"
#ifndef NP
#define NP 3
#endif
extern "C" void vp_main()
{
	EnvArgs ea;
	auto c = MakeComputer(ea);
	std::vector<Particle> ps;
	for (int i = 0; i < NP; i++)
	{
		const int t = vp_inti("type", i, 0, 3);
		const double x = vp_reali("x", i, 0, 1.75), z = vp_reali("z", i, 0, 1.75);
#ifdef DIM3
		const double y = vp_reali("y", i, 0, 1.75);
#else
		const double y = 0;
#endif
		ps.push_back(MakeParticle(TypeOf(t), x, z, 0, 0, 0, vp_reali("n", i, -10, 10), y, 0));
	}
	const auto in = ps;
	Fill(c, ps);
	T::Search(c);
	T::Densities(c);
	const double n0 = c.GetEnvironment().N0(), re = c.GetEnvironment().R_e;
	for (std::size_t i = 0; i < NP; i++)
	{
		const auto& q = c.Particles()[i];
		vp_check(q.TYPE() == in[i].TYPE(), "type");
		if (q.TYPE() == DUMMY || q.TYPE() == DISABLED)
		{
			vp_reach("kept");
			vp_eq(q.N(), in[i].N(), "kept density");
			continue;
		}
		double s = 0;
		for (std::size_t j = 0; j < NP; j++)
		{
			if (j != i && in[j].TYPE() != DISABLED) { s += RefW(Len(Minus(in[j].X(), in[i].X())), re); }
		}
#ifdef MPS_SPP
		if (s < n0) { vp_reach("filled"); s = n0; } else { vp_reach("dense"); }
#endif
		vp_out("n", q.N());
		vp_eq(q.N(), s, "density");
	}
}
