// C16: pressure-gradient correction against an independent reference.
// SCEN 0: pair (first fluid, second of every type) anywhere in one cell.  SCEN 1: fixed layouts, any pressures and velocities.
#include "mps.hpp"
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.re = 1.25; ea.g = 8;
	ea.rho = VP_PARAM("rho", 0.5, 4, 2);
	auto c = MakeComputer(ea);
	std::vector<Particle> ps;
#if SCEN == 0
	constexpr int NP = 2;
	const int t[2] = {0, vp_int("type1", 0, 3)};
#else
	constexpr int NP = 4;
	const int layout = vp_int("layout", 0, 2);
	const double ax[3][4][2] = {{{0.5, 0.5}, {0.875, 0.625}, {0.375, 0.875}, {0.75, 0.25}}, {{0.75, 0.75}, {0.3125, 0.5}, {1.25, 1.125}, {0.875, 1.25}},
		
#ifdef MPS_GC
		{{0.25, 0.25}, {1.125, 0.5}, {0.5, 1.125}, {1.0625, 1.0625}}};
#else
		{{0.25, 0.25}, {1, 0.5}, {0.25, 1.375}, {1.5, 0.25}}};
#endif
	const int t[4] = {0, vp_int("type1", 0, 3), vp_int("type2", 0, 1), vp_int("type3", 0, 3)};
#ifdef MPS_GC
	// enough neighbours in general position for everybody
	vp_assume(t[1] != 3);
#ifdef DIM3
	vp_assume(t[3] != 3);
#endif
#endif
#ifdef DIM3
	const double ay[3][4] = {{0.5, 0.625, 0.25, 1}, {0.5, 0.75, 0.25, 1.125}, {0.5, 0.875, 0.25, 0.5}};
#endif
#endif
	for (int i = 0; i < NP; i++)
	{
#if SCEN == 0
		const double x = i ? vp_real("x", 0.25, 1.5) : 0.75, z = i ? vp_real("z", 0.25, 1.5) : 0.75, y = 0.5;
#else
		const double x = ax[layout][i][0], z = ax[layout][i][1];
#ifdef DIM3
		const double y = ay[layout][i];
#else
		const double y = 0;
#endif
#endif
		ps.push_back(MakeParticle(TypeOf(t[i]), x, z, vp_reali("u", i, -4, 4), vp_reali("w", i, -4, 4), vp_reali("p", i, 0, 10), vp_reali("n", i, 0, 10), y, 0));
		for (int j = 0; j < i; j++) { vp_assume(Len(Minus(ps[i].X(), ps[j].X())) > 0); }
	}
	const auto in = ps;
	Fill(c, ps);
	const double dt = vp_real("dt", 0.01, 1);
	T::Env(c).Dt() = dt;
	T::Search(c);
	T::Densities(c);
	std::vector<double> n;
	for (const auto& q : c.Particles()) { n.push_back(q.N()); }
	T::Gradient(c);
	const auto& out = c.Particles();
	const double n0 = c.GetEnvironment().N0(), re = c.GetEnvironment().R_e;
	for (int i = 0; i < NP; i++)
	{
		vp_eq(out[i].P(), in[i].P(), "pressure kept");
		vp_eq(out[i].N(), n[i], "density kept");
		vp_check(out[i].TYPE() == in[i].TYPE(), "type kept");
		if (t[i] != 0)
		{
			for (std::size_t d = 0; d < DIM; d++) { vp_eq(out[i].U()[d], in[i].U()[d], "others keep their velocity"); vp_eq(out[i].X()[d], in[i].X()[d], "others do not move"); }
			continue;
		}
		Vector g = VectorZero, centre = VectorZero;
		double thisN = 0;
#ifdef MPS_GC
		double m[DIM][DIM] = {};
#endif
		for (int j = 0; j < NP; j++)
		{
			if (j == i || t[j] == 3) { continue; }
			const Vector dx = Minus(in[j].X(), in[i].X());
			const double r = Len(dx);
			if (r < re)
			{
				const double w = re/r - 1;
				thisN += w;
				for (std::size_t d = 0; d < DIM; d++) { centre[d] += w*dx[d]; }
#ifdef MPS_GC
				for (std::size_t d = 0; d < DIM; d++) { for (std::size_t e = 0; e < DIM; e++) { m[d][e] += w/(r*r)*dx[d]*dx[e]; } }
#endif
				if (t[j] != 2)
				{
					vp_reach("interaction");
					for (std::size_t d = 0; d < DIM; d++) { g[d] += (in[j].P() + in[i].P())/(r*r)*w*dx[d]; }
				}
			}
		}
#ifdef MPS_SPP
		if (thisN < n0)
		{
			for (std::size_t d = 0; d < DIM; d++) { centre[d] = centre[d]/n0; }
			const double rg = Len(centre);
			if (rg > 2.220446049250313e-16)
			{
				vp_reach("virtual particle");
				const double r = re/(n0 - thisN + 1), w = re/r - 1;
				for (std::size_t d = 0; d < DIM; d++)
				{
					const double dx = -r/rg*centre[d];
					g[d] += in[i].P()/(r*r)*w*dx;
#ifdef MPS_GC
					for (std::size_t e = 0; e < DIM; e++) { m[d][e] += w/(r*r)*dx*(-r/rg*centre[e]); }
#endif
				}
			}
		}
#endif
		Vector du = VectorZero;
#ifdef MPS_GC
		// C g with C the inverse of the moment matrix, by Cramer's rule on M y = g
#ifdef DIM3
		const double det = m[0][0]*(m[1][1]*m[2][2] - m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2] - m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1] - m[1][1]*m[2][0]);
		const double y[3] = {
			(g[0]*(m[1][1]*m[2][2] - m[1][2]*m[2][1]) - m[0][1]*(g[1]*m[2][2] - m[1][2]*g[2]) + m[0][2]*(g[1]*m[2][1] - m[1][1]*g[2]))/det,
			(m[0][0]*(g[1]*m[2][2] - m[1][2]*g[2]) - g[0]*(m[1][0]*m[2][2] - m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*g[2] - g[1]*m[2][0]))/det,
			(m[0][0]*(m[1][1]*g[2] - g[1]*m[2][1]) - m[0][1]*(m[1][0]*g[2] - g[1]*m[2][0]) + g[0]*(m[1][0]*m[2][1] - m[1][1]*m[2][0]))/det};
#else
		const double det = m[0][0]*m[1][1] - m[0][1]*m[1][0];
		const double y[2] = {(g[0]*m[1][1] - m[0][1]*g[1])/det, (m[0][0]*g[1] - g[0]*m[1][0])/det};
#endif
		for (std::size_t d = 0; d < DIM; d++) { du[d] = -dt*n[i]/(ea.rho*n0)*y[d]; }
#else
		for (std::size_t d = 0; d < DIM; d++) { du[d] = -dt/ea.rho*DIM/n0*g[d]; }
#endif
		for (std::size_t d = 0; d < DIM; d++)
		{
			vp_eq(out[i].U()[d] - in[i].U()[d], du[d], "velocity");
			vp_eq(out[i].X()[d] - in[i].X()[d], dt*du[d], "position");
		}
		Out(out[i]);
	}
#if SCEN == 0 && !defined(MPS_GC)
	if (t[1] == 0)
	{
		const Vector dx = Minus(in[1].X(), in[0].X());
		const double r = Len(dx);
		bool plain = r < re;
#ifdef MPS_SPP
		if (plain) { plain = re/r - 1 >= n0; }
#endif
		if (plain)
		{
			vp_reach("free pair");
			const Vector d0 = Minus(out[0].U(), in[0].U()), d1 = Minus(out[1].U(), in[1].U());
			for (std::size_t d = 0; d < DIM; d++) { vp_eq(d0[d] + d1[d], 0, "equal and opposite"); }
			vp_eq(d1[AX]*dx[AZ], d1[AZ]*dx[AX], "along the line");
			vp_le(0, Dot(Minus(d1, d0), dx), "pushed apart");
			if (in[0].P() > 0) { vp_lt(0, Dot(d1, dx), "strictly pushed apart"); }
		}
	}
#endif
}
