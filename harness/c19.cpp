// C19: in every parallel loop of a step no iteration touches what another iteration writes, and the result does not depend on
// the number of threads. One thread per iteration: every pair of iterations runs in different threads.
#include "pairs.hpp"
#ifndef NP
#define NP 4
#endif
#ifdef STAGES
// single stages with particles anywhere in a cell
extern "C" void vp_main()
{
	EnvArgs ea = Args();
	const int which = vp_int("stage", 0, 4);
	std::vector<Particle> ps;
	const int t1 = vp_int("type1", 0, 3), t2 = vp_int("type2", 0, 1);
	const double xs = which == 0 ? 2.5 : 1;
	ps.push_back(MakeParticle(FLUID, vp_real("x0", 0, xs), vp_int("z0", 0, 2)*0.3125 + 0.1875, 1, 2, 3, 4, 0.5));
	ps.push_back(MakeParticle(TypeOf(t1), 0.25, 0.5, -1, 2, 1, 5, 0.5));
	ps.push_back(MakeParticle(TypeOf(t2), 0.75, 0.625, -1, 1, 2, 6, 0.5));
	for (int i = 0; i < 8; i++) { TheWalls().pos[i] = VEC(0.25*i, 0.5, 0.5); }
	auto c = Create(ea);
	c.AddParticles(std::move(ps));
	T::Env(c).Dt() = 0.0625;
	vp_threads(3);
	if (which == 0) { vp_races(1); }
	T::Search(c);
	if (which == 1) { vp_races(1); }
	if (which > 0) { T::Densities(c); }
#ifdef MPS_ECS
	if (which > 0) { T::Ecs(c); }
#endif
	if (which == 2) { vp_races(1); T::Explicit(c); }
	if (which == 3) { vp_races(1); T::SetPpe(c); }
	if (which == 4) { vp_races(1); T::Gradient(c); }
	vp_races(0);
	vp_threads(1);
	vp_reach("stage");
}
#else
extern "C" void vp_main()
{
	EnvArgs ea = Args();
	const double dt = 0.015625;
	const int layout = vp_int("layout", 0, 2);
	for (int i = 0; i < 8; i++) { TheWalls().pos[i] = VEC(0.25 + 0.0625*i, 0.5, 0.375 + 0.125*i); }
	const auto init = Layout(layout, ROT, NP);
	for (int k = 0; k < NP; k++) { TheWalls().pos[k] = init[k].X(); TheWalls().pos[k][AX] += 0.03125; }
	auto ca = Create(ea);
	auto cb = Create(ea);
	ca.AddParticles(Layout(layout, ROT, NP));
	cb.AddParticles(Layout(layout, ROT, NP));
	const double p0 = vp_real("p0", 0, 4);
	if (STEPS == 1) { T::P(ca)[0].P() = p0; T::P(cb)[0].P() = p0; }
	bool ok = true, okb = true;
	for (int s = 0; s < STEPS && ok; s++)
	{
		vp_threads(NP);
		vp_races(1);
		ok = Step(ca, dt);
		vp_races(0);
		vp_threads(s == 0 ? 1 : 2);
		okb = Step(cb, dt);
		vp_threads(1);
		vp_check(ok == okb, "failure");
	}
	if (!ok) { vp_reach("failed"); return; }
	for (int i = 0; i < NP; i++)
	{
		const auto& p = ca.Particles()[i];
		const auto& q = cb.Particles()[i];
		Same(p, q);
		Out(p);
	}
	vp_reach("compared");
}
#endif
