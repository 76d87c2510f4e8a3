// C09, C11: first stage. Fluid particles get gravity plus viscosity; nothing else about them changes.
#include "mps.hpp"
#ifdef BLOCK
#include "block.hpp"
#endif
#ifndef NP
#define NP 3
#endif
#ifndef POS
#define POS 1.75
#endif
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.g = VP_PARAM("g", -20, 20, 8);
	vp_assume(ea.g > 0);
	ea.nu = VP_PARAM("nu", 0, 4, 0.5);
	ea.rho = VP_PARAM("rho", 0.1, 10, 2);
#ifdef BLOCK
	// many particles, any velocities
	ea.re = RE; ea.minX = ea.minZ = -1; ea.maxX = ea.maxZ = 9;
	auto c = MakeComputer(ea);
	std::vector<Particle> ps = Block(0);
	for (int i = 0; i < NP; i++)
	{
		ps[i].U()[AX] = vp_reali("u", i, -4, 4); ps[i].U()[AZ] = vp_reali("w", i, -4, 4);
		TheLog().pos[i] = ps[i].X();
	}
#else
	auto c = MakeComputer(ea);
	std::vector<Particle> ps;
	for (int i = 0; i < NP; i++)
	{
#ifdef FEW
		const int t = i == 0 ? 0 : (i == 1 ? vp_int("type1", 0, 3) : 2*vp_inti("type", i, 0, 1));
#else
		const int t = i == 0 ? 0 : vp_inti("type", i, 0, 3);
#endif
		const double x = vp_reali("x", i, 0, POS), z = vp_reali("z", i, 0, POS);
#ifdef DIM3
		const double y = vp_reali("y", i, 0, POS), v = vp_reali("v", i, -4, 4);
#else
		const double y = 0, v = 0;
#endif
		ps.push_back(MakeParticle(TypeOf(t), x, z, vp_reali("u", i, -4, 4), vp_reali("w", i, -4, 4), vp_reali("p", i, 0, 10), vp_reali("n", i, 0, 10), y, v));
		for (int j = 0; j < i; j++) { vp_assume(Len(Minus(ps[i].X(), ps[j].X())) > 0); }
		TheLog().pos[i] = ps[i].X();
	}
#endif
	const auto in = ps;
	Fill(c, ps);
	const double dt = vp_real("dt", 0.001, 1);
	T::Env(c).Dt() = dt;
	T::Search(c);
	T::Densities(c);
	std::vector<double> nBefore;
	for (auto& q : c.Particles()) { nBefore.push_back(q.N()); }
	T::Explicit(c);
	const auto& env = c.GetEnvironment();
	const double n0 = env.N0(), re = env.R_e;
	for (std::size_t i = 0; i < NP; i++)
	{
		const auto& q = c.Particles()[i];
		if (in[i].TYPE() != FLUID) { continue; }
		vp_check(q.TYPE() == FLUID, "type");
		vp_eq(q.P(), in[i].P(), "pressure kept");
		vp_eq(q.N(), nBefore[i], "density kept");
		Vector a = VEC(0, 0, -ea.g);
		for (std::size_t j = 0; j < NP; j++)
		{
			if (j == i || in[j].TYPE() == DISABLED || in[j].TYPE() == DUMMY) { continue; }
			const double r = Len(Minus(in[j].X(), in[i].X()));
			if (r < re)
			{
				vp_reach("viscous");
#ifdef MPS_HL
				const double k = ea.nu*(5.0 - DIM)*re/n0/(r*r*r);
#else
				const double k = ea.nu*2*DIM/env.Lambda()/n0*RefW(r, re);
#endif
				for (std::size_t d = 0; d < DIM; d++) { a[d] += k*(in[j].U()[d] - in[i].U()[d]); }
			}
		}
		for (std::size_t d = 0; d < DIM; d++)
		{
			const double u = in[i].U()[d] + dt*a[d];
			vp_eq(q.U()[d], u, "velocity");
			vp_eq(q.X()[d], in[i].X()[d] + dt*u, "position");
		}
		Out(q);
	}
}
