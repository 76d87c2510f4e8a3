// C12: the right-hand side of the pressure equation, read from the solver's input after the real assembly.
// SCEN 0: fixed positions before and after the first stage (several layouts), any velocities before and after.
// SCEN 1: a pair anywhere in one cell, closer than the reference density needs.
#include "mps.hpp"
static double RefDensity(const std::vector<Vector>& x, const std::vector<Particle>& ps, std::size_t i, double re)
{
	double s = 0;
	for (std::size_t j = 0; j < ps.size(); j++)
	{
		if (j == i || ps[j].TYPE() == DISABLED) { continue; }
		s += RefW(Len(Minus(x[j], x[i])), re);
	}
	return s;
}
static double RefSpeed(const std::vector<Vector>& x, const std::vector<Vector>& u, const std::vector<Particle>& ps, std::size_t i, double re, double n0, double dt, double n)
{
#ifdef MPS_HS
	(void)dt;
#ifdef MPS_SPP
	if (RefDensity(x, ps, i, re) < n0) { return 0; }
#else
	(void)n0;
#endif
	(void)n;
	double s = 0;
	for (std::size_t j = 0; j < ps.size(); j++)
	{
		if (j == i || ps[j].TYPE() == DISABLED) { continue; }
		const Vector dx = Minus(x[j], x[i]);
		const double r = Len(dx);
		if (r < re) { s += Dot(dx, Minus(u[j], u[i]))/(r*r*r); }
	}
	return -re*s;
#else
	(void)x; (void)u; (void)ps; (void)i; (void)re;
	return (n - n0)/dt;
#endif
}
static double Abs(double a) { if (a < 0) { return -a; } return a; }
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.re = 1.25; ea.rho = VP_PARAM("rho", 0.5, 4, 2); ea.g = 8;
	auto c = MakeComputer(ea);
	const double dt = vp_real("dt", 0.01, 1);
	std::vector<Vector> xa, xb, ua, ub;
	std::vector<Particle> ps;
#if SCEN == 0
	constexpr int NP = 3;
	const int layout = vp_int("layout", 0, 2);
	// dense, dense around the first only, sparse
	const double ax[3][3][2] = {{{0.5, 0.5}, {0.875, 1}, {0.375, 0.875}}, {{0.75, 0.75}, {0.3125, 0.5}, {1.25, 1.125}}, {{0.25, 0.25}, {1, 0.75}, {0.25, 1.375}}};
	const double bx[3][3][2] = {{{0.5, 0.5}, {0.8125, 0.9375}, {0.4375, 0.875}}, {{0.75, 0.6875}, {0.375, 0.5}, {1.25, 1}}, {{0.3125, 0.25}, {1, 0.8125}, {0.25, 1.25}}};
	const int t[3] = {0, vp_int("type1", 0, 3), vp_int("type2", 0, 3)};
	for (int i = 0; i < NP; i++)
	{
		xa.push_back(VEC(ax[layout][i][0], 0.5, ax[layout][i][1]));
		xb.push_back(VEC(bx[layout][i][0], 0.5, bx[layout][i][1]));
	}
#else
	constexpr int NP = 2;
	const int t[2] = {vp_int("type0", 0, 1), vp_int("type1", 0, 2)};
	xa.push_back(VEC(0.75, 0.5, 0.75));
	xa.push_back(VEC(vp_real("x", 0.25, 1.25), 0.5, vp_real("z", 0.25, 1.25)));
	xb.push_back(xa[0]);
	xb.push_back(VEC(vp_real("bx", 0.25, 1.25), 0.5, vp_real("bz", 0.25, 1.25)));
	vp_assume(Len(Minus(xa[1], xa[0])) > 0);
	vp_assume(Len(Minus(xb[1], xb[0])) > 0);
#endif
	for (int i = 0; i < NP; i++)
	{
		ua.push_back(VEC(vp_reali("u", i, -4, 4), 0, vp_reali("w", i, -4, 4)));
		ub.push_back(VEC(vp_reali("bu", i, -4, 4), 0, vp_reali("bw", i, -4, 4)));
		Particle q(TypeOf(t[i]));
		q.X() = xa[i]; q.U() = ua[i];
		q.P() = vp_reali("p", i, 0, 10); q.N() = vp_reali("n", i, 0, 10);
		ps.push_back(q);
	}
	const auto in = ps;
	Fill(c, ps);
	auto& p = T::P(c);
	T::Env(c).Dt() = dt;
	const auto& env = c.GetEnvironment();
	const double n0 = env.N0(), re = env.R_e;
	T::Search(c);
	T::Densities(c);
	std::vector<double> corr(NP, 0.0);
#ifdef MPS_ECS
	T::Ecs(c);
	for (int i = 0; i < NP; i++)
	{
		double n = RefDensity(xa, in, i, re);
#ifdef MPS_SPP
		if (n < n0) { n = n0; }
#endif
		const double err = (n - n0)/n0, s = RefSpeed(xa, ua, in, i, re, n0, dt, n);
		corr[i] = Abs(err)*s + Abs(s)*err;
	}
#endif
	// the first stage has moved everything
	for (int i = 0; i < NP; i++) { p[i].X() = xb[i]; p[i].U() = ub[i]; }
	T::Densities(c);
	T::SetPpe(c);
	auto& ppe = T::Ppe(c);
	for (int i = 0; i < NP; i++)
	{
		double want = 0;
		if (t[i] < 2)
		{
			double n = RefDensity(xb, in, i, re);
#ifdef MPS_SPP
			if (n < n0) { n = n0; } else { vp_reach("dense"); }
			const bool surface = false;
#else
			const bool surface = n/n0 < env.SurfaceRatio;
#endif
			if (!surface) { want = -ea.rho/(n0*dt)*(RefSpeed(xb, ub, in, i, re, n0, dt, n) + corr[i]); }
		}
		vp_eq(ppe.b(i), want, "source");
		vp_out("b", ppe.b(i));
	}
#ifdef MPS_HS
	// a common velocity changes nothing; approaching pairs have a positive rate
	const Vector v = VEC(vp_real("vx", -4, 4), 0, vp_real("vz", -4, 4));
	std::vector<double> s0;
	for (int i = 0; i < NP; i++) { s0.push_back(t[i] < 2 ? T::Speed(c, i) : 0); }
#if SCEN == 1
	const double r = Len(Minus(xb[1], xb[0]));
	const double closing = -Dot(Minus(xb[1], xb[0]), Minus(ub[1], ub[0]));
	bool dense = r < re;
#ifdef MPS_SPP
	dense = re/r - 1 >= n0;
#endif
	if (dense) { if (closing > 0) { vp_reach("approaching"); vp_lt(0, s0[0], "rate of an approaching pair"); } }
#endif
	for (int i = 0; i < NP; i++) { p[i].U() += v; }
	for (int i = 0; i < NP; i++) { if (t[i] < 2) { vp_eq(T::Speed(c, i), s0[i], "common velocity"); } }
#endif
}
