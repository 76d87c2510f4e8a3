// C26: the virtual surface particle, observed through the matrix diagonal, the pressure correction and the viscosity of its owner.
// SCEN 0: fluid with one neighbour anywhere.  SCEN 1: three particles around a first one in fixed layouts (balanced, unbalanced, dense, lonely).
#include "mps.hpp"
#if SCEN == 0
constexpr int NP = 2;
#else
constexpr int NP = 4;
#endif
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.re = 1.25; ea.g = 8; ea.nu = VP_PARAM("nu", 0, 4, 0.5); ea.rho = 2; ea.maxX = ea.maxZ = 4.5;
	auto c = MakeComputer(ea);
	std::vector<Particle> ps;
#if SCEN == 0
	const int t[2] = {0, vp_int("type1", 0, 2)};
#else
	const int t[4] = {0, vp_int("type1", 0, 2), vp_int("type2", 0, 3), vp_int("type3", 0, 3)};
	const int layout = vp_int("layout", 0, 3);
	// balanced along x, balanced triangle-like with an unbalanced third, dense, alone
	const double ax[4][4][2] = {{{2, 2}, {1.125, 2}, {2.875, 2}, {2, 4.5}}, {{2, 2}, {1.25, 2}, {2.5, 2.75}, {2.5, 1.25}},
		{{2, 2}, {1.5, 1.875}, {2.25, 2.25}, {2, 1.5}}, {{2, 2}, {0.25, 2}, {4, 2}, {2, 4.25}}};
#endif
	for (int i = 0; i < NP; i++)
	{
#if SCEN == 0
		const double x = i ? vp_real("x", 0.25, 1.75) : 0.75, z = i ? vp_real("z", 0.25, 1.75) : 0.75;
#else
		const double x = ax[layout][i][0], z = ax[layout][i][1];
#endif
		ps.push_back(MakeParticle(TypeOf(t[i]), x, z, vp_reali("u", i, -4, 4), vp_reali("w", i, -4, 4), vp_reali("p", i, 0, 10), vp_reali("n", i, 0, 10), 0.5));
		TheLog().pos[i] = ps[i].X();
		for (int j = 0; j < i; j++) { vp_assume(Len(Minus(ps[i].X(), ps[j].X())) > 0); }
	}
	const auto in = ps;
	Fill(c, ps);
	const double dt = 0.25;
	T::Env(c).Dt() = dt;
	T::Search(c);
	T::Densities(c);
	const auto& env = c.GetEnvironment();
	const double n0 = env.N0(), re = env.R_e;
	// real neighbours of particle 0
	double n = 0, real = 0;
	Vector centre = VectorZero, g = VectorZero, vis = VectorZero;
	for (int j = 1; j < NP; j++)
	{
		if (t[j] == 3) { continue; }
		const Vector dx = Minus(in[j].X(), in[0].X());
		const double r = Len(dx);
		if (r < re)
		{
			const double w = re/r - 1;
			n += w;
			for (std::size_t d = 0; d < DIM; d++) { centre[d] += w*dx[d]; }
			if (t[j] != 2)
			{
				const double k = (5.0 - DIM)*re/n0/(r*r*r);
				real += k;
				for (std::size_t d = 0; d < DIM; d++)
				{
					g[d] += (in[j].P() + in[0].P())/(r*r)*w*dx[d];
					vis[d] += ea.nu*k*(in[j].U()[d] - in[0].U()[d]);
				}
			}
		}
	}
	double cg = Len(centre);
	bool some = false;
	if (n < n0) { if (cg > n0*2.220446049250313e-16) { some = true; } }
	// observed
	T::SetPpe(c);
	auto& ppe = T::Ppe(c);
	auto e = ppe.b, col = ppe.b;
	for (int i = 0; i < NP; i++) { e(i) = i == 0 ? 1.0 : 0.0; }
#ifdef USE_VIENNACL
	col = viennacl::linalg::prod(ppe.A, e);
#else
	col = boost::numeric::ublas::prod(ppe.A, e);
#endif
	const double extra = -col(0) - real;       // what is not explained by real neighbours
	vp_out("extra", extra);
	T::Gradient(c);
	vp_check(c.Particles().size() == NP, "not in the list");
	Vector du = Minus(c.Particles()[0].U(), in[0].U());
	for (std::size_t d = 0; d < DIM; d++) { du[d] = du[d]*(-ea.rho*n0/(dt*DIM)) - g[d]; }      // gradient not explained by real neighbours
	if (some)
	{
		vp_reach("some");
		const double deficit = n0 - n, r = re/(deficit + 1);
		vp_eq(RefW(r, re), deficit, "weight equals the deficit");
		vp_eq(extra, (5.0 - DIM)*re/n0/(r*r*r), "diagonal");
		// at -r centre/|centre|, with zero pressure
		for (std::size_t d = 0; d < DIM; d++) { vp_eq(du[d], -in[0].P()/(r*r)*deficit*r*centre[d]/cg, "gradient"); }
	}
	else
	{
		if (n < n0) { vp_reach("balanced or alone"); } else { vp_reach("dense"); }
		vp_eq(extra, 0, "none: diagonal");
		for (std::size_t d = 0; d < DIM; d++) { vp_eq(du[d], 0, "none: gradient"); }
	}
	// it moves with its owner: no viscosity
	auto& p = T::P(c);
	for (int i = 0; i < NP; i++) { p[i].X() = in[i].X(); p[i].U() = in[i].U(); }
	T::Explicit(c);
	for (std::size_t d = 0; d < DIM; d++) { vp_eq(c.Particles()[0].U()[d] - in[0].U()[d], dt*(vis[d] + (d == AZ ? -ea.g : 0)), "moves with its owner"); }
	vp_check(c.Particles().size() == NP, "not in the list");
}
