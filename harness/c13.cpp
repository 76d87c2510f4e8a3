// C13: the pressure equation's matrix and initial guess, read through the solver's own product after the real assembly.
// SCEN 0: fixed layouts of 3 particles of every type with fixed velocities, any pressures and densities, then one more is added, everything has moved and the system is assembled again.
// SCEN 1: a pair anywhere in one cell.
#include "mps.hpp"
template<typename C> static void Check(C& c, const char* what)
{
	const auto& ps = c.Particles();
	const auto& env = c.GetEnvironment();
	const int n = static_cast<int>(ps.size());
	const double re = env.R_e, n0 = env.N0();
	auto& ppe = T::Ppe(c);
	// reference
	std::vector<std::vector<double>> a(n, std::vector<double>(n, 0.0));
	std::vector<bool> live(n);
	for (int i = 0; i < n; i++)
	{
		live[i] = ps[i].TYPE() == FLUID || ps[i].TYPE() == WALL;
#ifndef MPS_SPP
		if (live[i]) { if (ps[i].N()/n0 < env.SurfaceRatio) { live[i] = false; } }
#endif
	}
	for (int i = 0; i < n; i++)
	{
		if (!live[i]) { a[i][i] = 1; continue; }
		double s = 0, thisN = 0;
		Vector g = VectorZero;
		for (int j = 0; j < n; j++)
		{
			if (j == i || ps[j].TYPE() == DISABLED) { continue; }
			const Vector dx = Minus(ps[j].X(), ps[i].X());
			const double r = Len(dx), w = RefW(r, re);
			thisN += w;
			for (std::size_t d = 0; d < DIM; d++) { g[d] += w*dx[d]; }
			if (ps[j].TYPE() == DUMMY) { continue; }
			if (r < re)
			{
#ifdef MPS_HL
				const double k = (5.0 - DIM)*re/n0/(r*r*r);
#else
				const double k = 2.0*DIM/env.Lambda()/n0*w;
#endif
				s += k;
				if (live[j]) { a[i][j] = k; vp_reach("coupled"); }
			}
		}
#ifdef MPS_SPP
		if (thisN < n0)
		{
			for (std::size_t d = 0; d < DIM; d++) { g[d] = g[d]/n0; }
			if (Len(g) > 2.220446049250313e-16)
			{
				vp_reach("virtual particle");
				const double r = re/(n0 - thisN + 1);
#ifdef MPS_HL
				s += (5.0 - DIM)*re/n0/(r*r*r);
#else
				s += 2.0*DIM/env.Lambda()/n0*RefW(r, re);
#endif
			}
		}
#endif
		a[i][i] = -s;
	}
	// the code's matrix, column by column
	auto e = ppe.b, col = ppe.b;
	for (int j = 0; j < n; j++)
	{
		for (int i = 0; i < n; i++) { e(i) = i == j ? 1.0 : 0.0; }
#ifdef USE_VIENNACL
		col = viennacl::linalg::prod(ppe.A, e);
#else
		col = boost::numeric::ublas::prod(ppe.A, e);
#endif
		for (int i = 0; i < n; i++)
		{
			vp_eq(col(i), a[i][j], what);
			vp_out("a", col(i));
		}
	}
	for (int i = 0; i < n; i++) { vp_eq(ppe.x(i), live[i] ? ps[i].P() : 0, "initial guess"); }
	vp_check(static_cast<int>(ppe.x.size()) == n, "size");
	vp_check(static_cast<int>(ppe.b.size()) == n, "size");
}
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.re = 1.25; ea.rho = 2; ea.g = 8;
	auto c = MakeComputer(ea);
	std::vector<Particle> ps;
#if SCEN == 0
	constexpr int NP = 3;
	const int layout = vp_int("layout", 0, 2);
	const double ax[3][4][2] = {{{0.5, 0.5}, {0.875, 1}, {0.375, 0.875}, {0.75, 0.625}}, {{0.75, 0.75}, {0.3125, 0.5}, {1.25, 1.125}, {0.75, 1.25}},
		{{0.25, 0.25}, {1, 0.75}, {0.25, 1.375}, {1.5, 0.25}}};
	const double bx[3][4][2] = {{{0.5, 0.5625}, {0.8125, 0.9375}, {0.4375, 0.875}, {0.75, 0.5}}, {{0.75, 0.6875}, {0.375, 0.5}, {1.25, 1}, {0.75, 1.25}},
		{{0.3125, 0.25}, {1, 0.8125}, {0.25, 1.25}, {1.25, 0.25}}};
	const int t[4] = {0, vp_int("type1", 0, 3), vp_int("type2", 0, 3), vp_int("type3", 0, 1)};
	for (int i = 0; i < NP; i++)
	{
		ps.push_back(MakeParticle(TypeOf(t[i]), ax[layout][i][0], ax[layout][i][1], 0.25*i - 0.125, 0.5 - 0.375*i*i, vp_reali("p", i, 0, 10), vp_reali("n", i, 0, 10), 0.5));
	}
#else
	constexpr int NP = 2;
	const int t[2] = {vp_int("type0", 0, 1), vp_int("type1", 0, 3)};
	for (int i = 0; i < NP; i++)
	{
		ps.push_back(MakeParticle(TypeOf(t[i]), i ? vp_real("x", 0.25, 1.5) : 0.75, i ? vp_real("z", 0.25, 1.5) : 0.75, 0, 0, vp_reali("p", i, 0, 10), vp_reali("n", i, 0, 10), 0.5));
	}
	vp_assume(Len(Minus(ps[1].X(), ps[0].X())) > 0);
#endif
	Fill(c, ps);
	T::Env(c).Dt() = 0.25;
	T::Search(c);
	T::Densities(c);
#ifdef MPS_ECS
	T::Ecs(c);
#endif
	T::SetPpe(c);
	Check(c, "coefficient");
#if SCEN == 0
	// next step: everything has moved, one particle more, another type change through leaving
	auto& p = T::P(c);
	for (int i = 0; i < NP; i++) { p[i].X() = VEC(bx[layout][i][0], 0.5, bx[layout][i][1]); p[i].P() = vp_reali("q", i, 0, 10); }
	std::vector<Particle> more;
	more.push_back(MakeParticle(TypeOf(t[3]), bx[layout][3][0], bx[layout][3][1], 0, 0, vp_real("p3", 0, 10), 0, 0.5));
	c.AddParticles(std::move(more));
	T::Search(c);
	T::Densities(c);
#ifdef MPS_ECS
	T::Ecs(c);
#endif
	T::SetPpe(c);
	Check(c, "coefficient after a change");
	// same size, moved back
	for (int i = 0; i < NP + 1; i++) { p[i].X() = VEC(ax[layout][i][0], 0.5, ax[layout][i][1]); }
	if (t[1] == 0) { p[1].Disable(); }
	T::Search(c);
	T::Densities(c);
#ifdef MPS_ECS
	T::Ecs(c);
#endif
	T::SetPpe(c);
	Check(c, "coefficient after another change");
#endif
}
