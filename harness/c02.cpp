// C02: leaving the domain disables a particle for good; being inside never does.
// SCEN 0: one particle of every live type, any position around the box, three steps with new positions each.
// SCEN 1: special positions (huge, infinite, NaN, bounds) on either axis.
// SCEN 2: two particles, one may be outside: the other one is unaffected; several steps.
// SCEN 3: three interacting particles of any type, one of them leaves (or not) by its own motion at any speed, or as a moving wall;
//         three steps, nothing touched in between.
#include "mps.hpp"
#ifndef SCEN
#define SCEN 0
#endif
#ifndef RANGE
#define RANGE 11
#endif
#ifndef STEPS0
#define STEPS0 2
#endif
static EnvArgs Args()
{
	EnvArgs ea;
	ea.g = 0.0625;
	ea.minX = -1.25; ea.maxX = ea.minX + 2.5;    // 1.33 search radii
	ea.minY = 0.25; ea.maxY = ea.minY + 1.875;   // exactly one
	ea.minZ = 0.5; ea.maxZ = ea.minZ + 1.875;
	return ea;
}
// state: -1 must be disabled, 1 must stay live, 0 free
static int Want(const Environment& e, const Vector& x)
{
	bool in = true, out = false;
	for (std::size_t d = 0; d < DIM; d++)
	{
		if (x[d] < e.MinX[d]) { out = true; in = false; }
		else if (x[d] > e.MaxX[d])
		{
			in = false;
			if (x[d] - e.MaxX[d] > 3*e.NeighborLength) { out = true; }
		}
		else if (!(x[d] >= e.MinX[d])) { in = false; }
	}
	return out ? -1 : (in ? 1 : 0);
}
#if SCEN == 3
extern "C" void vp_main()
{
	EnvArgs ea = Args();
	ea.minX = -3; ea.maxX = 3; ea.minZ = -1.75; ea.maxZ = 4.25; ea.re = 1.25;
	auto c = MakeComputer(ea, 1000);
	const auto& env = c.GetEnvironment();
	const double dt = 0.25;
	constexpr int N = 3, STEPS = 3;
	// neighbours beyond the influence radius, which a move of 2 or more along an axis does not bring closer
	const double cx = 0, cy = 1.25, cz = 1.25, a = 1.0625;
	const double at[3][3] = {{cx, cy, cz}, {cx + a, cy, cz + a}, {cx - a, cy, cz - a}};
	const int who = vp_int("who", 0, N - 1);
	const int axis = vp_int("axis", 0, static_cast<int>(DIM) - 1);
	const int kind = vp_int("kind", 0, 3);
	const double speed = vp_real("speed", 8, RANGE) * (vp_int("back", 0, 1) ? -1 : 1);
	std::vector<Particle> ps;
	for (int i = 0; i < N; i++)
	{
		const int t = i == who ? kind : (i == (who + 1) % N ? 0 : vp_int("other", 0, 2));
		ps.push_back(MakeParticle(TypeOf(t), at[i][0], at[i][2], 0, 0, 0, 0, at[i][1], 0));
		TheLog().pos[i] = ps[i].X();
		if (i == who) { ps[i].U()[axis] = speed; }
	}
	c.AddParticles(std::move(ps));
	bool was[N];
	for (int i = 0; i < N; i++) { was[i] = c.Particles()[i].TYPE() == DISABLED; }
	for (int s = 0; s < STEPS; s++)
	{
		int want[N]; Particle::Type before[N];
		for (int i = 0; i < N; i++)
		{
			before[i] = c.Particles()[i].TYPE();
			want[i] = Want(env, c.Particles()[i].X());
		}
		// a wall, dummy or disabled particle goes where it is told, as fast
		TheLog().pos[who][axis] = at[who][axis == 0 ? 0 : axis == static_cast<int>(DIM) - 1 ? 2 : 1] + speed*dt*(s + 1);
		c.ForwardTime(dt);
		for (int i = 0; i < N; i++)
		{
			const auto t = c.Particles()[i].TYPE();
			if (was[i]) { vp_reach("was disabled"); vp_check(t == DISABLED, "disabled for good"); }
			else if (want[i] == 1) { vp_check(t == before[i], "inside stays live"); }
			else if (want[i] == -1) { vp_check(t == DISABLED, "outside is disabled"); }
			else { vp_check(t == before[i] || t == DISABLED, "type"); }
			was[i] = was[i] || t == DISABLED;
			vp_outi("t", static_cast<long>(t));
		}
	}
}
#else
extern "C" void vp_main()
{
	const EnvArgs ea = Args();
	auto c = MakeComputer(ea);
	const auto& env = c.GetEnvironment();
	const double dt = 0.015625;
	std::vector<Particle> ps;
#if SCEN == 0
	constexpr int N = 1, STEPS = STEPS0;
	const int axis = vp_int("axis", 0, static_cast<int>(DIM) - 1);
#elif SCEN == 1
	constexpr int N = 1, STEPS = 2;
	const int axis = vp_int("axis", 0, static_cast<int>(DIM) - 1);
#else
	constexpr int N = 2, STEPS = 2;
	const int axis = static_cast<int>(DIM) - 1;
#endif
	for (int i = 0; i < N; i++)
	{
		ps.push_back(MakeParticle(TypeOf(N == 2 && i == 0 ? 0 : vp_inti("type", i, 0, N == 1 ? 2 : 3)), ea.minX + 0.25 + 2*i, ea.minZ + 0.25 + i, 0, 0, 0, 0, ea.minY + 0.25, 0));
		TheLog().pos[i] = ps[i].X();
	}
	c.AddParticles(std::move(ps));
	auto& p = T::P(c);
	for (int s = 0; s < STEPS; s++)
	{
		int want[N]; Particle::Type before[N];
		for (int i = 0; i < N; i++)
		{
			double v;
#if SCEN == 1
			const int k = vp_inti("special", s, 0, 9);
			const double lo = env.MinX[axis], hi = env.MaxX[axis];
			const double zero = vp_num(0.0);
			v = k == 0 ? lo : k == 1 ? hi : k == 2 ? 1e300 : k == 3 ? -1e300 : k == 4 ? 1/zero : k == 5 ? -1/zero : k == 6 ? zero/zero : k == 7 ? 1e18 : k == 8 ? -1e18 : 4e9;
#else
			v = vp_reali("v", s*N + i, -RANGE, RANGE);
#endif
			// the first particle is placed through its state, walls come to their place through the prescribed motion as well
			p[i].X()[axis] = v;
			TheLog().pos[i] = p[i].X();
			before[i] = p[i].TYPE();
			want[i] = Want(env, p[i].X());
#if SCEN == 1
			if (k >= 2) { want[i] = k == 6 ? 0 : -1; }
#endif
		}
		c.ForwardTime(dt);
		for (int i = 0; i < N; i++)
		{
			const auto t = c.Particles()[i].TYPE();
			if (before[i] == DISABLED) { vp_reach("was disabled"); vp_check(t == DISABLED, "disabled for good"); }
			else if (want[i] == 1) { vp_reach("inside"); vp_check(t == before[i], "inside stays live"); }
			else if (want[i] == -1) { vp_reach("outside"); vp_check(t == DISABLED, "outside is disabled"); }
			else { vp_check(t == before[i] || t == DISABLED, "type"); }
			vp_outi("t", static_cast<long>(t));
			if (!(t == DISABLED)) { p[i].U() = VectorZero; }
		}
	}
}
#endif
