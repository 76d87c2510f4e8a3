// C18: the dynamic stabiliser.
// SCEN 0: pair (first fluid, second of every type) in 5 relative positions before and any positions after the pressure correction.
// SCEN 1: three particles, the first two in fixed positions before and after, the third anywhere after.
#include "mps.hpp"
#if SCEN == 0
constexpr int NP = 2;
#else
constexpr int NP = 3;
#endif
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.g = 8;
	auto c = MakeComputer(ea);
	std::vector<Particle> ps;
#if SCEN == 0
	const int t[2] = {0, vp_int("type1", 0, 3)}, before = vp_int("before", 0, 4);
#else
	const int t[3] = {0, vp_int("type1", 0, 1), vp_int("type2", 0, 3)};
#endif
	std::vector<Vector> xa, xb, ua;
	for (int i = 0; i < NP; i++)
	{
#if SCEN == 0
		const double ax[5] = {0.5, 0, 0.375, -0.25, 0.0625}, az[5] = {0, -0.5, 0.5, 0.25, 0.03125};
		const double x = i ? 0.75 + ax[before] : 0.75, z = i ? 0.75 + az[before] : 0.75;
#ifdef DIM3
		const double ay[5] = {0, 0, 0, 0, 0};
		const double y = i ? 0.5 + ay[before] : 0.5;
#else
		const double y = 0.5;
#endif
#else
		const double ax[3] = {0.75, 1.25, 0.5}, az[3] = {0.75, 0.75, 0.25};
		const double x = ax[i], z = az[i], y = 0.5;
#endif
		xa.push_back(VEC(x, y, z));
		ps.push_back(MakeParticle(TypeOf(t[i]), x, z, 0, 0, vp_reali("p", i, 0, 10), vp_reali("n", i, 0, 10), y));
	}
	for (int i = 0; i < NP; i++) { for (int j = 0; j < i; j++) { vp_assume(Len(Minus(xa[i], xa[j])) > 0); } }
	Fill(c, ps);
	const double dt = vp_real("dt", 0.01, 1);
	T::Env(c).Dt() = dt;
	T::Search(c);
	T::Densities(c);
	std::vector<double> n;
	for (const auto& q : c.Particles()) { n.push_back(q.N()); }
	T::SaveX(c);
	// the pressure correction moves the fluid
	auto& p = T::P(c);
	for (int i = 0; i < NP; i++)
	{
		if (t[i] == 0)
		{
#if SCEN == 0
			double y = 0.5;
#ifdef DIM3
			y = vp_reali("by", i, 0, 1.75);
#endif
#ifdef DIM3
			if (i == 0) { p[i].X() = VEC(0.8125, 0.5, 0.75); } else
#endif
			p[i].X() = VEC(vp_reali("bx", i, 0, 1.75), y, vp_reali("bz", i, 0, 1.75));
#else
			const double bx[3] = {0.8125, 1.25, 0}, bz[3] = {0.75, 0.8125, 0};
			p[i].X() = i < 2 ? VEC(bx[i], 0.5, bz[i]) : VEC(vp_real("bx", 0, 1.5), 0.5, vp_real("bz", 0, 1.5));
#endif
		}
		p[i].U() = VEC(vp_reali("u", i, -4, 4), 0, vp_reali("w", i, -4, 4));
		xb.push_back(p[i].X()); ua.push_back(p[i].U());
	}
	T::Stabilize(c);
	const auto& out = c.Particles();
	const auto& env = c.GetEnvironment();
	const double n0 = env.N0(), d2 = (ea.l0 - ea.courant*ea.l0)*(ea.l0 - ea.courant*ea.l0);
	for (int i = 0; i < NP; i++)
	{
		vp_check(out[i].TYPE() == TypeOf(t[i]), "type kept");
		if (t[i] != 0)
		{
			for (std::size_t d = 0; d < DIM; d++) { vp_eq(out[i].U()[d], ua[i][d], "others keep their velocity"); vp_eq(out[i].X()[d], xb[i][d], "others do not move"); }
			continue;
		}
		vp_eq(out[i].N(), n[i], "density kept");
		Vector du = VectorZero;
		for (int j = 0; j < NP; j++)
		{
			if (j == i || t[j] >= 2) { continue; }
			const Vector dx = Minus(xb[j], xb[i]), dx0 = Minus(xa[j], xa[i]);
			const double r2 = Dot(dx, dx);
			if (r2 < d2)
			{
				vp_reach("too close");
				const double r0 = Len(dx0), par = Dot(dx, dx0)/r0;
				const double k = -1/(2*dt*n0)*(vp_sqrt(d2 - (r2 - par*par)) - par)/r0;
				for (std::size_t d = 0; d < DIM; d++) { du[d] += k*dx0[d]; }
			}
			else { vp_reach("far enough"); }
		}
		for (std::size_t d = 0; d < DIM; d++)
		{
			vp_check(vp_isfinite(out[i].U()[d]) != 0, "finite");
			vp_eq(out[i].U()[d] - ua[i][d], du[d], "repulsion");
			vp_eq(out[i].X()[d] - xb[i][d], dt*du[d], "position");
		}
		Out(out[i]);
	}
#if SCEN == 0
	if (t[1] == 0)
	{
		const Vector e = Minus(xa[1], xa[0]);
		for (std::size_t d = 0; d < DIM; d++) { vp_eq(out[0].U()[d] - ua[0][d] + (out[1].U()[d] - ua[1][d]), 0, "equal and opposite"); }
		vp_le(0, Dot(Minus(Minus(out[1].X(), xb[1]), Minus(out[0].X(), xb[0])), e), "separation never shrinks");
		vp_reach("fluid pair");
	}
	else if (t[1] == 1) { vp_le(0, Dot(Minus(xb[0], out[0].X()), Minus(xa[1], xa[0])), "pushed away from the wall"); }
#endif
}
