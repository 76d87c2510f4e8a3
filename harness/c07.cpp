// C07: the automatic time step.
// SCEN 3: the choice alone under very different caps.
// SCEN 4: six particles, any of them fast, after a step with a given time step.
// SCEN 0: a step of particles at any velocities (far apart).  SCEN 1: the caps of the configuration.  SCEN 2: no particles.
#include "mps.hpp"
extern "C" void vp_main()
{
	EnvArgs ea;
#if SCEN == 1
	ea.maxDt = vp_real("maxDt", 0, 10);
	ea.courant = vp_real("courant", 0, 1);
	ea.l0 = vp_real("l0", 0, 10);
	ea.g = vp_real("g", 0, 100);
	ea.c = vp_real("c", 0, 100);
	vp_assume(ea.maxDt > 0); vp_assume(ea.courant > 0); vp_assume(ea.l0 > 0); vp_assume(ea.g > 0); vp_assume(ea.c > 0);
	const auto env = MakeEnv(ea);
	const double dx = ea.courant*ea.l0;
	vp_eq(env.MaxDx, dx, "permitted displacement");
	vp_lt(0, env.MaxDt, "positive cap");
	vp_le(env.MaxDt, ea.maxDt, "at most the requested maximum");
#ifdef PRESSURE_EXPLICIT
	vp_le(env.MaxDt*ea.c, dx, "sound travels at most the permitted displacement");
	if (env.MaxDt < ea.maxDt) { vp_eq(env.MaxDt*ea.c, dx, "no shorter than needed"); vp_reach("limited"); }
#else
	vp_le(ea.g*env.MaxDt*env.MaxDt/2, dx, "free fall covers at most the permitted displacement");
	if (env.MaxDt < ea.maxDt) { vp_eq(ea.g*env.MaxDt*env.MaxDt/2, dx, "no shorter than needed"); vp_reach("limited"); }
#endif
	vp_out("cap", env.MaxDt);
#else
#if SCEN == 4
	// the fastest one may have any number, and an earlier step with a given time step leaves no trace in the choice
	ea.maxDt = 0.5; ea.g = 0.0625; ea.c = 0.25; ea.maxX = 37;
	auto c = MakeComputer(ea, 1000);
	const double maxDt = c.GetEnvironment().MaxDt, maxDx = c.GetEnvironment().MaxDx;
	const int who = vp_int("who", 0, 4), first = vp_int("first", 0, 1);
	std::vector<Particle> ps;
	for (int i = 0; i < 5; i++)
	{
		const bool w = i == who;
		ps.push_back(MakeParticle(TypeOf(0), 0.5 + 6*i, 0.75, w ? 0 : 0.125*(i + 1), w ? vp_real("w", -40, 40) : -0.125*i, 0, 0, 0.5));
		TheLog().pos[i] = ps[i].X();
	}
	c.AddParticles(std::move(ps));
	if (first > 0) { c.ForwardTime(4.0); }
	double v2[6];
	bool live = true;
	for (int i = 0; i < 5; i++)
	{
		v2[i] = Dot(c.Particles()[i].U(), c.Particles()[i].U());
		if (c.Particles()[i].TYPE() == DISABLED) { live = false; }
	}
	const double t0 = c.GetEnvironment().T();
	c.ForwardTime();
	const double dt = c.GetEnvironment().Dt();
	vp_out("dt", dt);
	vp_lt(0, dt, "positive");
	vp_le(dt, maxDt, "at most the cap");
	vp_eq(c.GetEnvironment().T(), t0 + dt, "time");
	bool tight = !(dt < maxDt);
	for (int i = 0; i < 5; i++)
	{
		vp_le(v2[i]*dt*dt, maxDx*maxDx, "nobody travels too far");
		if (dt < maxDt)
		{
			vp_reach("limited by speed");
			if (v2[i]*dt*dt >= maxDx*maxDx*0.999999) { tight = true; }
		}
	}
	if (live) { vp_check(tight, "largest such step"); }
#elif SCEN == 3
	// the choice itself under caps from far below to far above one
	const int conf = vp_int("conf", 0, 2);
	ea.maxDt = conf == 0 ? 64 : (conf == 1 ? 3 : 0.001);
	ea.g = conf == 0 ? 0.00390625 : 0.015625; ea.c = conf == 0 ? 0.015625 : 0.03125;
	ea.maxX = 13;
	auto c = MakeComputer(ea, 1000);
	const double maxDt = c.GetEnvironment().MaxDt, maxDx = c.GetEnvironment().MaxDx;
	std::vector<Particle> ps;
	double v2[2];
	bool live = true;
	for (int i = 0; i < 2; i++)
	{
		const int t = vp_inti("type", i, 0, 3);
		const double u = vp_reali("u", i, -200, 200), w = vp_reali("w", i, -200, 200);
		ps.push_back(MakeParticle(TypeOf(t), 0.5 + 6*i, 0.75, u, w, 0, 0, 0.5));
		TheLog().pos[i] = VEC(0.5 + 6*i, 0.5, 0.75);
		v2[i] = u*u + w*w;
		if (t == 3) { live = false; }
	}
	c.AddParticles(std::move(ps));
	c.ForwardTime();
	const double dt = c.GetEnvironment().Dt();
	vp_out("dt", dt);
	vp_lt(0, dt, "positive");
	vp_le(dt, maxDt, "at most the cap");
	bool tight = false;
	for (int i = 0; i < 2; i++)
	{
		vp_le(v2[i]*dt*dt, maxDx*maxDx, "nobody travels too far");
		if (dt < maxDt)
		{
			vp_reach("limited by speed");
			if (v2[i]*dt*dt >= maxDx*maxDx*0.999999) { tight = true; }
		}
		else { tight = true; }
	}
	if (live) { vp_check(tight, "largest such step"); }
#else
	ea.maxDt = 0.5; ea.maxX = 13; ea.rho = 2; ea.c = 0.25;
	ea.g = SCEN == 2 ? 10 : 1;       // cap = 1/2
	auto c = MakeComputer(ea, 1000);
	const double maxDt = c.GetEnvironment().MaxDt, maxDx = c.GetEnvironment().MaxDx;
#if SCEN == 0
	std::vector<Particle> ps;
	double v2[NP];
	bool live = true, below = true;
	for (int i = 0; i < NP; i++)
	{
		const int t = vp_inti("type", i, 0, 3);
		const double u = vp_reali("u", i, -4, 4), w = vp_reali("w", i, -4, 4);
		ps.push_back(MakeParticle(TypeOf(t), 0.5 + 6*i, 0.75, u, w, 0, 0, 0.5));
		TheLog().pos[i] = VEC(0.5 + 6*i, 0.5, 0.75);
		v2[i] = u*u + w*w;
		if (t == 3) { live = false; }
	}
	c.AddParticles(std::move(ps));
	for (int step = 0; step < 2; step++)
	{
		c.ForwardTime();
		const double dt = c.GetEnvironment().Dt();
		vp_out("dt", dt);
		vp_lt(0, dt, "positive");
		vp_le(dt, maxDt, "at most the cap");
		bool tight = false;
		for (int i = 0; i < NP; i++)
		{
			vp_le(v2[i]*dt*dt, maxDx*maxDx, "nobody travels too far");
			if (dt < maxDt)
			{
				vp_reach("limited by speed");
				if (v2[i]*dt*dt >= maxDx*maxDx*0.999999) { tight = true; }
			}
			else { tight = true; }
		}
		if (live) { vp_check(tight, "largest such step"); }
		if (step == 0) { vp_eq(c.GetEnvironment().T(), dt, "time"); }
#if NP > 1
		break;
#endif
		// second step from the state the first one left
		const auto& q = c.Particles();
		for (int i = 0; i < NP; i++)
		{
			v2[i] = Dot(q[i].U(), q[i].U());
			if (q[i].TYPE() == DISABLED) { live = false; }
		}
	}
#else
	for (int step = 1; step <= 2; step++)
	{
		c.ForwardTime();
		const double dt = c.GetEnvironment().Dt();
		vp_check(dt == maxDt, "nobody to limit the step");
		vp_eq(c.GetEnvironment().T(), step*maxDt, "time");
	}
	(void)maxDx;
#endif
#endif
#endif
}
