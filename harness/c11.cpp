// C11: viscosity between particles: equal and opposite, damping, unaffected by a common velocity, none from dummies.
// SCEN 0: two particles anywhere in one cell.  SCEN 1: three particles in fixed layouts, any velocities.
#include "mps.hpp"
#if SCEN == 0
constexpr int NP = 2;
#else
constexpr int NP = 3;
#endif
// velocity changes by viscosity in a first stage of dt = 1/2 with gravity 8
template<typename F> static std::vector<Vector> Kick(const EnvArgs& ea, const std::vector<Particle>& in, F&& shift)
{
	auto c = MakeComputer(ea);
	auto ps = in;
	for (auto& q : ps) { shift(q); }
	const auto start = ps;
	c.AddParticles(std::move(ps));
	T::Env(c).Dt() = 0.5;
	T::Search(c);
	T::Densities(c);
	T::Explicit(c);
	std::vector<Vector> d;
	for (int i = 0; i < NP; i++)
	{
		Vector v = Minus(c.Particles()[i].U(), start[i].U());
		v[AZ] += 4;
		d.push_back(v);
		Out(c.Particles()[i]);
	}
	return d;
}
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.g = 8;
	ea.nu = vp_real("nu", 0, 4);
	std::vector<Particle> ps;
	const double lx[3][3] = {{0.5, 1, 0.75}, {0.25, 1.5, 0.5}, {0.75, 0.8125, 0.75}};
	const double lz[3][3] = {{0.5, 0.75, 1.25}, {0.25, 0.5, 1.5}, {0.75, 0.75, 0.875}};
	const int layout = SCEN == 1 ? vp_int("layout", 0, 2) : 0;
	for (int i = 0; i < NP; i++)
	{
		const int t = i == NP - 1 ? vp_int("last", 0, 2) : 0;
		double x, z, y = 0.5, v = 0;
		if (SCEN == 0) { x = vp_reali("x", i, 0, 1.75); z = vp_reali("z", i, 0, 1.75); }
		else { x = lx[layout][i]; z = lz[layout][i]; }
#ifdef DIM3
		y = vp_reali("y", i, 0, 1.75); v = vp_reali("v", i, -4, 4);
#endif
		ps.push_back(MakeParticle(TypeOf(t), x, z, vp_reali("u", i, -4, 4), vp_reali("w", i, -4, 4), vp_reali("p", i, 0, 10), 0, y, v));
		for (int j = 0; j < i; j++) { vp_assume(Len(Minus(ps[i].X(), ps[j].X())) > 0); }
		TheLog().pos[i] = ps[i].X();
	}
	const auto d = Kick(ea, ps, [](Particle&) {});
	bool allFluid = ps[NP - 1].TYPE() == FLUID;
	// momentum
	if (allFluid)
	{
		for (std::size_t k = 0; k < DIM; k++)
		{
			double s = 0;
			for (int i = 0; i < NP; i++) { s += d[i][k]; }
			vp_eq(s, 0, "no net momentum");
		}
		// work: sum of d_i u_i is never positive
		double s = 0;
		for (int i = 0; i < NP; i++) { s += Dot(d[i], ps[i].U()); }
		vp_le(s, 0, "only damps");
		if (NP == 2) { vp_le(Dot(Minus(d[1], d[0]), Minus(ps[1].U(), ps[0].U())), 0, "relative motion slows"); }
		if (Dot(d[0], d[0]) > 0) { vp_reach("interaction"); }
	}
	else if (ps[NP - 1].TYPE() == WALL) { vp_reach("wall"); }
	else
	{
		// without the dummy nothing changes
		if (NP == 2) { for (std::size_t k = 0; k < DIM; k++) { vp_eq(d[0][k], 0, "nothing from a dummy"); } }
		else
		{
			auto only = ps;
			const auto e = Kick(ea, only, [](Particle& q) { if (q.TYPE() == DUMMY) { q.Disable(); } });
			for (int i = 0; i < NP - 1; i++) { for (std::size_t k = 0; k < DIM; k++) { vp_eq(d[i][k], e[i][k], "nothing from a dummy"); } }
		}
		vp_reach("dummy");
	}
	// common velocity
	const Vector w = VEC(vp_real("vx", -4, 4), vp_real("vy", -4, 4), vp_real("vz", -4, 4));
	const auto e = Kick(ea, ps, [&w](Particle& q) { q.U() += w; });
	for (int i = 0; i < NP; i++)
	{
		if (ps[i].TYPE() == FLUID) { for (std::size_t k = 0; k < DIM; k++) { vp_eq(e[i][k], d[i][k], "common velocity"); } }
	}
}
