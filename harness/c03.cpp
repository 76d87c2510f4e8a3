// C03: a disabled particle has no influence: two computations, with and without a disabled particle at any index.
#include "mps.hpp"
#ifdef BLOCK
#include "block.hpp"
#endif
#ifndef NP
#define NP 2
#endif
#ifndef STEPS
#define STEPS 1
#endif
static Particle In(const Particle& q) { return q; }
template<typename C> static bool Step(C& c, double dt)
{
	try { c.ForwardTime(dt); }
	catch (const std::runtime_error&) { return false; }
	return true;
}
#if defined(FULL)
// live particles that fill a cell to its capacity, and a disabled one in the same cell
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.g = 4; ea.nu = 0.5; ea.rho = 2; ea.re = 1.25;
	std::vector<Particle> a, b;
	auto ca = MakeComputer(ea, EPS);
	auto cb = MakeComputer(ea, EPS);
	int at = vp_int("at", 0, 9);
	const int more = vp_int("more", 0, 2);	// one more or less than the capacity
	for (int i = 0; i < 8 + more; i++)
	{
		const auto q = MakeParticle(DUMMY, 0.125*i, 0.125*((i*5)%9), 0, 0, i, i, 0.5);
		if (i == at)
		{
			b.push_back(MakeParticle(DISABLED, vp_real("dx", 0, 1), vp_real("dz", 0, 1), 1, 2, 3, 4, 0.5));
		}
		a.push_back(q); b.push_back(q);
		TheLog().pos[0] = VEC(0.25, 0.5, 0.25);
	}
	for (int i = 0; i < 8; i++) { TheLog().pos[i] = VEC(0.125*i, 0.5, 0.25); }
	ca.AddParticles(std::move(a));
	cb.AddParticles(std::move(b));
	bool oka = true, okb = true;
	try { T::Search(ca); } catch (const std::runtime_error&) { oka = false; }
	try { T::Search(cb); } catch (const std::runtime_error&) { okb = false; }
	vp_check(oka == okb, "failure");
	if (!oka) { vp_reach("failed"); return; }
	vp_reach("compared");
	for (int i = 0; i < 8 + more; i++)
	{
		const int k = at < 8 + more && i >= at ? i + 1 : i;
		vp_check(T::Count(ca, i) == T::Count(cb, k), "neighbours");
	}
}
#elif defined(HIST)
// a wall is led out of the domain and becomes disabled; from then on the others must behave as if it had never been there
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.g = 4; ea.nu = 0.5; ea.rho = 2; ea.re = 1.25;
	const double dt = 0.03125;
	const int at = vp_int("at", 0, 2);
	const int layout = vp_int("layout", 0, 1);
	const int other = vp_int("type1", 0, 2);
	const int out = vp_int("out", 0, 1);
	std::vector<Particle> live, a, b;
	live.push_back(MakeParticle(FLUID, 0.5, 0.5, 0.5, 0.25, 2, 1, 0.5));
	live.push_back(MakeParticle(TypeOf(other), layout == 1 ? 0.5 : 0.875, 1, -0.5, -1, 3, 1, 0.5));
	Vector posA[8], posB[8];
	for (int i = 0; i < 8; i++) { posA[i] = VEC(0, 0, 0); posB[i] = VEC(0, 0, 0); }
	int m = 0;
	for (int i = 0; i < 3; i++)
	{
		if (i == at) { a.push_back(MakeParticle(WALL, 0.25, 0.75, 0, 0, 4, 2, 0.5)); }
		else { a.push_back(live[m]); posA[i] = live[m].X(); m++; }
	}
	auto ca = MakeComputer(ea, EPS);
	ca.AddParticles(std::move(a));
	for (int i = 0; i < 3; i++) { TheLog().pos[i] = posA[i]; }
	TheLog().pos[at] = out == 0 ? VEC(-7, 0.5, 0.75) : VEC(0.25, 0.5, 9.5);
	if (!Step(ca, dt)) { vp_reach("failed"); return; }
	m = 0;
	for (int i = 0; i < 3; i++)
	{
		if (i != at) { b.push_back(ca.Particles()[i]); posB[m] = posA[i]; m++; }
	}
	auto cb = MakeComputer(ea, EPS);
	cb.AddParticles(std::move(b));
	for (int s = 0; s < 2; s++)
	{
		for (int i = 0; i < 3; i++) { TheLog().pos[i] = posA[i]; }
		TheLog().pos[at] = VEC(0.375, 0.5, 0.75);	// back inside: it stays disabled
		const bool oka = Step(ca, dt);
		for (int i = 0; i < 3; i++) { TheLog().pos[i] = posB[i]; }
		const bool okb = Step(cb, dt);
		vp_check(oka == okb, "failure");
		if (!oka) { vp_reach("failed"); return; }
		vp_check(ca.Particles()[at].TYPE() == DISABLED, "stays disabled");
		for (int i = 0; i < 2; i++)
		{
			const auto& p = ca.Particles()[i < at ? i : i + 1];
			const auto& q = cb.Particles()[i];
			vp_check(p.TYPE() == q.TYPE(), "type");
			for (std::size_t k = 0; k < DIM; k++)
			{
				vp_eq(p.X()[k], q.X()[k], "position");
				vp_eq(p.U()[k], q.U()[k], "velocity");
			}
			vp_eq(p.P(), q.P(), "pressure");
			vp_eq(p.N(), q.N(), "density");
			Out(p);
		}
	}
	vp_reach("compared");
}
#else
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.g = 4; ea.nu = 0.5; ea.rho = 2; ea.re = 1.25;
	std::vector<Particle> live;
#ifdef BLOCK
	const double dt = 0.00390625;
	ea.re = RE; ea.minX = ea.minY = ea.minZ = -2; ea.maxX = ea.maxY = ea.maxZ = 10;
	live = Block(0);
	live[NP - 1] = MakeParticle(FLUID, live[NP - 1].X()[AX], live[NP - 1].X()[AZ], 0.5, 0.25, vp_real("p0", 2, 4), 0, 0.5);
#elif defined(DENSE)
	// fixed live particles at rational distances, close enough for a pressure system
	const double dt = 0.03125;
	const int layout = vp_int("layout", 0, 2);
	const int other = vp_int("type1", 0, 2);
	live.push_back(MakeParticle(FLUID, 0.5, 0.5, 0.5, 0.25, STEPS == 1 ? vp_real("p0", 0, 10) : 2, 1, 0.5));
	live.push_back(MakeParticle(TypeOf(other), layout == 1 ? 0.5 : 0.875, layout == 2 ? 0.5 : 1, -0.5, -1, 3, 1, 0.5));
	if (layout == 0) { live[1].X()[AX] = 0.5 + 0.1875; live[1].X()[AZ] = 0.5 + 0.25; }
	live.push_back(MakeParticle(WALL, 0.25, 1.5, 0, 0, 1, 2, 0.5));
#else
	const double dt = vp_int("dt", 1, 2)*0.0625;
	for (int i = 0; i < NP; i++)
	{
		const int t = i == 0 ? 0 : vp_inti("type", i, 0, 2);
		live.push_back(MakeParticle(TypeOf(t), 0.5 + 0.375*i, 0.5 + 0.5*i, vp_reali("u", i, -1, 1), vp_reali("w", i, -1, 1), i, i, 0.5));
	}
#endif
	// the disabled one: any state, anywhere
	const int at = NP > 8 ? vp_int("at", 0, 2)*(NP/2) : vp_int("at", 0, NP);
	const auto d = MakeParticle(DISABLED, vp_real("dx", -4, 4), vp_real("dz", -4, 4), vp_real("du", -10, 10), vp_real("dw", -10, 10),
		vp_real("dp", -10, 10), vp_real("dn", -10, 10), 0.5);
	std::vector<Particle> a, b;
	for (int i = 0; i < NP; i++)
	{
		if (i == at) { b.push_back(In(d)); }
		a.push_back(In(live[i])); b.push_back(In(live[i]));
	}
	if (at == NP) { b.push_back(In(d)); }
	// prescribed positions belong to particle numbers: the wall table follows the list
	Vector posA[24], posB[24];
	for (std::size_t i = 0; i < a.size(); i++) { posA[i] = a[i].X(); posA[i][AX] += NP > 8 ? 2*dt : 0.0625; }
	for (std::size_t i = 0; i < b.size(); i++)
	{
		const int src = static_cast<int>(i) < at ? static_cast<int>(i) : static_cast<int>(i) - 1;
		if (static_cast<int>(i) == at) { posB[i] = VEC(vp_real("tx", -4, 4), 0.5, vp_real("tz", -4, 4)); } else { posB[i] = posA[src]; }
	}
	auto ca = MakeComputer(ea, EPS);
	ca.AddParticles(std::move(a));
	auto cb = MakeComputer(ea, EPS);
	cb.AddParticles(std::move(b));
	for (int s = 0; s < STEPS; s++)
	{
		for (int i = 0; i <= NP; i++) { TheLog().pos[i] = posA[i]; }
		const bool oka = Step(ca, dt);
		for (int i = 0; i <= NP; i++) { TheLog().pos[i] = posB[i]; }
		const bool okb = Step(cb, dt);
		vp_check(oka == okb, "failure");
		if (!oka || !okb) { vp_reach("failed"); return; }
	}
	for (int i = 0; i < NP; i++)
	{
		const auto& p = ca.Particles()[i];
		const auto& q = cb.Particles()[i < at ? i : i + 1];
		vp_check(p.TYPE() == q.TYPE(), "type");
		for (std::size_t k = 0; k < DIM; k++)
		{
			vp_eq(p.X()[k], q.X()[k], "position");
			vp_eq(p.U()[k], q.U()[k], "velocity");
		}
		vp_eq(p.P(), q.P(), "pressure");
		vp_eq(p.N(), q.N(), "density");
		Out(p);
	}
	const auto& q = cb.Particles()[at];
	vp_check(q.TYPE() == DISABLED, "stays disabled");
	vp_reach("compared");
}
#endif
