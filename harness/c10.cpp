// C10: walls and dummies move only as prescribed; preparation once per step and first.
// SCEN 0: fluid, wall and dummy, concrete start, prescribed positions and step symbolic.
// SCEN 1: wall and dummy (any state), several steps with prescribed positions and steps symbolic.
// SCEN 3: no walls, perhaps no particles.
// SCEN 2: fluid and one non-fluid anywhere in one cell, one step.
#include "mps.hpp"
static int calls[8];
struct CountingWall
{
	Vector operator()(const std::size_t i, const double t, const double dt) const
	{
		if (i < 8) { calls[i]++; }
		return wallFn(i, t, dt);
	}
};
static const CountingWall countingWall{};
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.nu = 0.5; ea.g = 8; ea.rho = 2; ea.maxX = 5;
	auto c = CreateComputer(
#ifndef PRESSURE_EXPLICIT
		vp_real("eps", 0.001, 1000),
#endif
		MakeEnv(ea), countingWall, preFn);
	std::vector<Particle> ps;
#if SCEN == 0
	// a fluid particle, a near and a far non-fluid one
	const int layout = vp_int("layout", 0, 1), kind = vp_int("type", 1, 2);
	constexpr int NP = 3, STEPS = 1;
	ps.push_back(MakeParticle(layout ? TypeOf(kind) : FLUID, layout ? 1.25 : 0.25, layout ? 0.5 : 0.25, 0.5, -0.25, 0, 0, 0.5));
	ps.push_back(MakeParticle(layout ? FLUID : TypeOf(kind), layout ? 0.25 : 1.25, layout ? 0.25 : 0.5, 0.5, -0.25, 0, 0, 0.5));
	ps.push_back(MakeParticle(TypeOf(3 - kind), 4.5, 0.5, vp_real("u2", -4, 4), vp_real("w2", -4, 4), 0, vp_real("n2", 0, 10), 0.5));
	const double lo[NP][4] = {{1.125, 1.5, 0.25, 0.625}, {1.125, 1.5, 0.25, 0.625}, {4, 5, 0, 1.5}};
#elif SCEN == 1
	constexpr int NP = 2, STEPS = 2;
	const double lo[NP][4] = {{0.25, 0.5, 0.25, 0.5}, {1, 1.5, 1, 1.5}};
	for (int i = 0; i < NP; i++)
	{
		ps.push_back(MakeParticle(TypeOf(vp_inti("type", i, 1, 2)), vp_reali("x", i, lo[i][0], lo[i][1]), vp_reali("z", i, lo[i][2], lo[i][3]),
			vp_reali("u", i, -4, 4), vp_reali("w", i, -4, 4), 0, vp_reali("n", i, 0, 10), 0.5));
	}
#elif SCEN == 3
	const int NP = vp_int("count", 0, 2);
	constexpr int STEPS = 2;
	const double lo[2][4] = {{0.25, 0.5, 0.25, 0.5}, {1, 1.5, 1, 1.5}};
	const int disabled = vp_int("disabled", 0, 1);
	for (int i = 0; i < NP; i++)
	{
		ps.push_back(MakeParticle(i == 1 && disabled ? DISABLED : FLUID, 0.5 + 3*i, 0.75, vp_reali("u", i, -4, 4), vp_reali("w", i, -4, 4), 0, vp_reali("n", i, 0, 10), 0.5));
	}
#else
	constexpr int NP = 2, STEPS = 1;
	const double lo[NP][4] = {{0, 1.5, 0, 1.5}, {0, 1.5, 0, 1.5}};
	const int swap = vp_int("swap", 0, 1);
	for (int i = 0; i < NP; i++)
	{
		const auto t = i == swap ? FLUID : TypeOf(vp_int("type", 1, 2));
		if (t == FLUID) { ps.push_back(MakeParticle(t, 0.5, 0.5, 0.25, -0.25, 1, 2)); }
		else { ps.push_back(MakeParticle(t, 0.8125, 0.875, 0.5, 0.25, vp_real("p", 0, 10), vp_real("n", 0, 10))); }
	}
#endif
	c.AddParticles(std::move(ps));
	double t = 0;
	Log& l = TheLog();
	for (int s = 0; s < STEPS; s++)
	{
#if SCEN == 1 || SCEN == 3
		const double dt = vp_reali("dt", s, 0.01, 0.125);
#else
		const double dt = vp_int("dt", 1, 2)*0.0625;
#endif
		t += dt;
		Vector before[3];
		Particle::Type types[3];
		for (int i = 0; i < NP; i++)
		{
			l.pos[i] = VEC(vp_reali("px", s*NP + i, lo[i][0], lo[i][1]), 0.5, vp_reali("pz", s*NP + i, lo[i][2], lo[i][3]));
			before[i] = c.Particles()[i].X();
			types[i] = c.Particles()[i].TYPE();
		}
		l.pre = 0; l.wall = 0; l.wallBeforePre = 0;
		for (int i = 0; i < 8; i++) { calls[i] = 0; }
		try { c.ForwardTime(dt); }
		catch (const decltype(c)::Exception&)
		{
			vp_reach("not converged");
			// the solver gave up after the first stage: the preparation has still run once
			vp_check(l.pre == 1, "preparation once");
			return;
		}
		vp_check(l.pre == 1, "preparation once");
		vp_check(l.wallBeforePre == 0, "preparation first");
		vp_eq(l.preT, t, "preparation time");
		vp_eq(l.preDt, dt, "preparation step");
		vp_eq(c.GetEnvironment().T(), t, "time");
		for (int i = 0; i < NP; i++)
		{
			const auto& q = c.Particles()[i];
			if (types[i] != WALL && types[i] != DUMMY) { if (q.TYPE() == FLUID) { vp_check(calls[i] == 0, "fluid is not prescribed"); } continue; }
			vp_reach("wall");
			vp_check(q.TYPE() == types[i], "type");
			vp_check(calls[i] == 1, "asked once");
			vp_eq(l.wallT, t, "prescribed time");
			vp_eq(l.wallDt, dt, "prescribed step");
			for (std::size_t d = 0; d < DIM; d++)
			{
				vp_eq(q.X()[d], l.pos[i][d], "prescribed position");
				vp_eq(q.U()[d], (l.pos[i][d] - before[i][d])/dt, "velocity from the displacement");
			}
			Out(q);
		}
	}
}
