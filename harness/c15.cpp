// C15: pressures after the second stage.
// SCEN 0: fixed layouts with a pressure system (any 5 velocities of one particle).  SCEN 1: weakly compressible variant, pair anywhere.
// SCEN 2: particles far apart with any pressures: the solution is anything.
// SCEN 3: a resting pair with any pressures, free-surface detection off: the solution is between them, and may be exactly zero.
#include "mps.hpp"
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.re = 1.25; ea.rho = 2; ea.g = 8;
	if (SCEN == 3) { ea.surfaceRatio = 0; }
	if (SCEN == 2) { ea.maxX = 14; ea.surfaceRatio = 0; }
#ifdef PRESSURE_EXPLICIT
	ea.c = vp_real("c", 0.5, 16); ea.rho = vp_real("rho", 0.5, 4);
#endif
	auto c = MakeComputer(ea, 1000);
	std::vector<Particle> ps;
#if SCEN == 0
	constexpr int NP = 4;
	const int layout = vp_int("layout", 0, 2);
	const double ax[3][4][2] = {{{0.5, 0.5}, {0.875, 0.625}, {0.375, 0.875}, {0.75, 0.25}}, {{0.75, 0.75}, {0.3125, 0.5}, {1.25, 1.125}, {0.75, 1.25}},
		{{0.25, 0.25}, {0.5, 0.5}, {0.25, 1.375}, {1.5, 0.25}}};
	const int t[4] = {0, 1 - vp_int("type1", 0, 1), vp_int("type2", 0, 3), 2 + vp_int("type3", 0, 1)};
	for (int i = 0; i < NP; i++)
	{
		const bool any = i == 1;
		ps.push_back(MakeParticle(TypeOf(t[i]), ax[layout][i][0], ax[layout][i][1], any ? 1.0*vp_int("u", -2, 2) : 0.25*i - 0.125, 0.5 - 0.375*i*i,
			t[i] < 2 ? 2.0*i : vp_reali("p", i, 0, 10), vp_reali("n", i, 0, 10), 0.5));
	}
#elif SCEN == 3
	constexpr int NP = 2;
	const int t[2] = {vp_int("type0", 0, 1), vp_int("type1", 0, 1)};
	for (int i = 0; i < NP; i++)
	{
		ps.push_back(MakeParticle(TypeOf(t[i]), 0.25 + i, 0.75, 0.5, 0.25, vp_reali("p", i, -10, 10), vp_reali("n", i, 0, 10), 0.5));
	}
#elif SCEN == 2
	// far apart: the equation is solved by any guess, so the solution is anything
	constexpr int NP = 3;
	const int t[3] = {vp_int("type0", 0, 3), vp_int("type1", 0, 3), vp_int("type2", 0, 3)};
	for (int i = 0; i < NP; i++)
	{
		ps.push_back(MakeParticle(TypeOf(t[i]), 0.5 + 6*i, 0.75, vp_reali("u", i, -1, 1), 0, vp_reali("p", i, -10, 10), vp_reali("n", i, 0, 10), 0.5));
	}
#else
	constexpr int NP = 2;
	const int t[2] = {vp_int("type0", 0, 1), vp_int("type1", 0, 3)};
	for (int i = 0; i < NP; i++)
	{
		ps.push_back(MakeParticle(TypeOf(t[i]), i ? vp_real("x", 0.25, 1.5) : 0.75, i ? vp_real("z", 0.25, 1.5) : 0.75, 0, 0, vp_reali("p", i, 0, 10), vp_reali("n", i, 0, 10), 0.5));
	}
	vp_assume(Len(Minus(ps[1].X(), ps[0].X())) > 0);
#endif
	const auto in = ps;
	Fill(c, ps);
	T::Env(c).Dt() = 0.25;
	T::Search(c);
	T::Densities(c);
	std::vector<double> n;
	for (const auto& q : c.Particles()) { n.push_back(q.N()); }
#ifdef MPS_ECS
	T::Ecs(c);
#endif
	T::Implicit(c);
	const double n0 = c.GetEnvironment().N0();
	for (int i = 0; i < NP; i++)
	{
		const auto& q = c.Particles()[i];
		vp_out("p", q.P());
		vp_eq(q.N(), n[i], "density kept");
		vp_check(q.TYPE() == TypeOf(t[i]), "type kept");
#ifndef PRESSURE_EXPLICIT
		if (t[i] < 2)
		{
			double want = T::Ppe(c).x(i);
			bool surface = false;
#ifndef MPS_SPP
			surface = n[i]/n0 < ea.surfaceRatio;
			if (surface) { vp_reach("surface"); }
#endif
			if (surface) { want = 0; }
			else
			{
				if (want < 0) { want = 0; vp_reach("negative"); } else { if (want > 0) { vp_reach("positive"); } }
			}
			vp_eq(q.P(), want, "solved pressure, clipped");
			vp_le(0, q.P(), "never negative");
		}
		else { vp_eq(q.P(), in[i].P(), "pressure kept"); }
#else
		if (t[i] < 2)
		{
			double want = 0;
			if (n[i] > n0) { want = ea.c*ea.c*(ea.rho/n0*n[i] - ea.rho); vp_reach("compressed"); } else { vp_reach("not compressed"); }
			vp_eq(q.P(), want, "equation of state");
			vp_le(0, q.P(), "never negative");
		}
#endif
	}
}
