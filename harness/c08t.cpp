// C08: a step advances the simulated time by exactly its time step, whatever that is.
#include "mps.hpp"
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.maxDt = vp_int("cap", 0, 1) ? 0.25 : 2; ea.g = 0.03125; ea.maxX = 13;
	auto c = MakeComputer(ea, 1000);
	const int n = vp_int("n", 0, 2);
	std::vector<Particle> ps;
	for (int i = 0; i < n; i++)
	{
		ps.push_back(MakeParticle(i == 0 ? WALL : DUMMY, 0.5 + 6*i, 0.75, 0, 0, 0, 0, 0.5));
		TheLog().pos[i] = VEC(0.5 + 6*i, 0.5, 0.75);
	}
	c.AddParticles(std::move(ps));
	vp_eq(c.GetEnvironment().T(), 0, "starts at zero");
	double t = 0;
	for (int s = 0; s < 3; s++)
	{
		// the second step is chosen by the computer
		double dt = 0;
		if (s == 1) { c.ForwardTime(); dt = c.GetEnvironment().Dt(); vp_lt(0, dt, "time step"); }
		else { dt = vp_reali("dt", s, 0.0001, 100); c.ForwardTime(dt); }
		t += dt;
		vp_eq(c.GetEnvironment().Dt(), dt, "time step");
		vp_eq(c.GetEnvironment().T(), t, "time");
		vp_out("t", c.GetEnvironment().T());
	}
}
