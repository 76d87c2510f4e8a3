// C25: relabelling, translation and mirroring commute with a step.
#include "pairs.hpp"
#ifdef BLOCK
#include "block.hpp"
#endif
#ifndef NP
#define NP 4
#endif
extern "C" void vp_main()
{
	EnvArgs ea = Args();
	EnvArgs eb = ea;
#ifdef BLOCK
	const double dt = 0.00390625;
	ea.minX = ea.minY = ea.minZ = -2; ea.maxX = ea.maxY = ea.maxZ = 10;
#ifdef RE
	ea.re = RE;
#endif
	eb = ea;
#else
	const double dt = 0.015625;
#endif
#if SCEN == 2
	// bounds are not symmetric (a particle is dropped at once below, later above): the particles stay inside
	ea.minX = ea.minZ = -6; ea.maxX = ea.maxZ = 9; eb = ea;
#endif
#ifdef BLOCK
	auto pa = Block(0);
	if (STEPS == 1) { pa[7].P() = vp_real("p0", 2, 4); }
#else
	const int layout = vp_int("layout", 0, 2);
	auto pa = Layout(layout, ROT, NP);
	if (STEPS == 1) { pa[0].P() = vp_real("p0", 0, 4); }
#endif
	Walls wa, wb;
	for (int i = 0; i < NP; i++) { wa.pos[i] = pa[i].X(); wa.pos[i][AX] += 2*dt; wa.pos[i][AZ] -= dt*(NP > 8 ? i % 3 : i); }
	int map[NP];
	std::vector<Particle> pb;
#if SCEN == 0
	// any permutation of the list (SWAPS: any exchange of two, one of them in the first or last place)
	int used = 0;
#ifdef SWAPS
	const int end = vp_int("end", 0, 1)*(NP - 1), other = NP > 8 ? vp_int("other", 0, 3)*(NP/3) - (vp_int("odd", 0, 1) ? 1 : 0) : vp_int("other", 0, NP - 1);
	if (other < 0 || other >= NP) { return; }
#endif
	for (int i = 0; i < NP; i++)
	{
#ifdef SWAPS
		const int k = i == end ? other : (i == other ? end : i);
#else
		int k = vp_inti("perm", i, 0, NP - 1);
#endif
		if (used & (1 << k)) { return; }
		used |= 1 << k;
		map[k] = i;
		pb.push_back(pa[k]);
		wb.pos[i] = wa.pos[k];
	}
#else
	for (int i = 0; i < NP; i++) { map[i] = i; pb.push_back(pa[i]); wb.pos[i] = wa.pos[i]; }
#endif
#if SCEN == 1
	// any translation
	const double sx = vp_real("sx", -100, 100), sz = vp_real("sz", -100, 100), sy = vp_real("sy", -100, 100);
	Vector s = VEC(sx, sy, sz);
	eb.minX += sx; eb.maxX += sx; eb.minZ += sz; eb.maxZ += sz; eb.minY += sy; eb.maxY += sy;
	for (int i = 0; i < NP; i++) { pb[i].X() += s; wb.pos[i] += s; }
#endif
#if SCEN == 2
	// mirrored about any vertical plane
	const double m = vp_real("m", -10, 10);
	eb.minX = m - ea.maxX; eb.maxX = m - ea.minX;
	for (int i = 0; i < NP; i++) { pb[i].X()[AX] = m - pb[i].X()[AX]; pb[i].U()[AX] = -pb[i].U()[AX]; wb.pos[i][AX] = m - wb.pos[i][AX]; }
#endif
	auto ca = Create(ea);
	auto cb = Create(eb);
	std::vector<Particle> qa = pa;
	ca.AddParticles(std::move(qa));
	cb.AddParticles(std::move(pb));
	for (int t = 0; t < STEPS; t++)
	{
#ifdef AUTO
		(void)dt;
		TheWalls() = wa;
		const bool oka = StepAuto(ca);
		TheWalls() = wb;
		const bool okb = StepAuto(cb);
		vp_eq(ca.GetEnvironment().Dt(), cb.GetEnvironment().Dt(), "time step");
#else
		TheWalls() = wa;
		const bool oka = Step(ca, dt);
		TheWalls() = wb;
		const bool okb = Step(cb, dt);
#endif
		vp_check(oka == okb, "failure");
		if (!oka) { vp_reach("failed"); return; }
		for (int i = 0; i < NP; i++)
		{
			const auto& p = ca.Particles()[i];
			Particle q = cb.Particles()[map[i]];
#if SCEN == 1
			q.X() -= s;
#endif
#if SCEN == 2
			q.X()[AX] = m - q.X()[AX];
			q.U()[AX] = -q.U()[AX];
#endif
			Same(p, q);
			Out(p);
		}
#if SCEN == 2
		for (int i = 0; i < NP; i++)
		{
			const auto& x = ca.Particles()[i].X();
			if (!(x[AX] >= ea.minX)) { vp_reach("left"); return; }
			if (!(x[AX] <= ea.maxX)) { vp_reach("left"); return; }
			if (!(x[AZ] >= ea.minZ)) { vp_reach("left"); return; }
		}
#endif
	}
	vp_reach("compared");
}
