// C24: batches equal one list; adding between steps equals starting with the combined state.
#include "pairs.hpp"
#ifndef FIRST
#define FIRST 1
#endif
#ifdef BLOCK
#include "block.hpp"
#endif
#ifndef NP
#define NP 4
#endif
static std::vector<Particle> Part(const std::vector<Particle>& a, std::size_t from, std::size_t to)
{
	std::vector<Particle> r;
	for (std::size_t i = from; i < to; i++) { r.push_back(a[i]); }
	return r;
}
extern "C" void vp_main()
{
	EnvArgs ea = Args();
#ifdef BLOCK
	const double dt = 0.00390625;
	ea.minX = ea.minY = ea.minZ = -2; ea.maxX = ea.maxY = ea.maxZ = 10;
#ifdef RE
	ea.re = RE;
#endif
#else
	const double dt = 0.015625;
#endif
#if SCEN == 0
	// any values, any split into three batches (empty ones included)
	std::vector<Particle> all;
	for (int i = 0; i < NP; i++)
	{
		all.push_back(MakeParticle(TypeOf((i*3 + vp_int("type", 0, 3)) % 4), vp_reali("x", i, -9, 9), vp_reali("z", i, -9, 9),
			vp_reali("u", i, -9, 9), vp_reali("w", i, -9, 9), vp_reali("p", i, -9, 9), vp_reali("n", i, -9, 9), vp_reali("y", i, -9, 9), vp_reali("v", i, -9, 9)));
	}
	const int a = vp_int("first", 0, NP), b = vp_int("second", 0, NP);
	if (b < a) { return; }
	auto c = Create(ea);
	c.AddParticles(Part(all, 0, a));
	vp_check(c.Particles().size() == static_cast<std::size_t>(a), "count");
	c.AddParticles(Part(all, a, b));
	vp_check(c.Particles().size() == static_cast<std::size_t>(b), "count");
	c.AddParticles(Part(all, b, NP));
	vp_check(c.Particles().size() == NP, "count");
	for (int i = 0; i < NP; i++) { Same(c.Particles()[i], all[i]); Out(c.Particles()[i]); }
	vp_reach("added");
#else
#ifdef BLOCK
	auto all = Block(0);
#else
	const int layout = vp_int("layout", 0, LAYOUTS - 1);
	auto all = Layout(layout, ROT, NP);
#endif
	for (int i = 0; i < NP; i++) { TheWalls().pos[i] = all[i].X(); TheWalls().pos[i][AX] += 2*dt; }
#if SCEN == 1
	// batches before the first step
	if (STEPS == 1) { all[NP > 8 ? 7 : 0].P() = vp_real("p0", NP > 8 ? 2 : 0, 4); }
	const int a = NP > 8 ? vp_int("first", 0, 3)*(NP/3) : vp_int("first", 0, NP);
	auto ca = Create(ea);
	auto cb = Create(ea);
	ca.AddParticles(Part(all, 0, NP));
	cb.AddParticles(Part(all, 0, a));
	cb.AddParticles(Part(all, a, NP));
#else
	// one step with some of them, the others join
	const int a = NP > 8 ? vp_int("first", 0, 2)*(NP/3) + 1 : vp_int("first", FIRST, NP - 1);
	const int b = vp_int("second", 0, 1);
	auto cb = Create(ea);
	cb.AddParticles(Part(all, 0, a));
	if (!Step(cb, dt)) { vp_reach("failed"); return; }
	std::vector<Particle> state;
	for (const auto& p : cb.Particles()) { state.push_back(p); }
	if (b == 1 && NP - a > 1)
	{
		cb.AddParticles(Part(all, a, a + 1));
		cb.AddParticles(Part(all, a + 1, NP));
	}
	else { cb.AddParticles(Part(all, a, NP)); }
	for (int i = 0; i < a; i++) { Same(cb.Particles()[i], state[i]); }
	for (int i = a; i < NP; i++) { Same(cb.Particles()[i], all[i]); state.push_back(all[i]); }
	auto ca = Create(ea);
	ca.AddParticles(Part(state, 0, NP));
#endif
	for (int s = 0; s < STEPS; s++)
	{
		const bool oka = Step(ca, dt), okb = Step(cb, dt);
		vp_check(oka == okb, "failure");
		if (!oka) { vp_reach("failed"); return; }
		for (int i = 0; i < NP; i++) { Same(ca.Particles()[i], cb.Particles()[i]); Out(ca.Particles()[i]); }
	}
	vp_reach("compared");
#endif
}
