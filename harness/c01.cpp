// C01: the neighbour lists hold exactly the other live particles closer than the search radius.
// SCEN 0: two particles anywhere in and around a 3x1-cell box with an offset origin, a stale search before.
// SCEN 1: three particles of every type in a 2x2-cell area.
// SCEN 3: every cell of a 3x3 area filled to its capacity but one in the middle, the last particle on any point of a line through it.
// SCEN 2: search radius against influence radius, symbolic spacing and Courant number.
#include "mps.hpp"
#ifndef SCEN
#define SCEN 0
#endif
#if SCEN == 2
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.l0 = vp_real("l0", 0.001, 10);
	ea.courant = vp_real("courant", 0.001, 1);
	ea.maxDt = vp_real("maxDt", 0.001, 10);
	ea.g = vp_real("g", 0.001, 10);
	const int k = vp_int("ratio", 0, 4);
	ea.re = k == 0 ? 1 : (k == 1 ? 1.5 : (k == 2 ? 2.5 : (k == 3 ? 3.125 : 4)));
	const auto e = MakeEnv(ea);
	vp_le(e.R_e + 2*e.MaxDx, e.NeighborLength, "search radius");
	vp_eq(e.R_e, ea.re*ea.l0, "influence radius");
	vp_eq(e.MaxDx, ea.courant*ea.l0, "permitted displacement");
	vp_out("nl", e.NeighborLength);
}
#else
template<typename C> void Check(C& c, std::size_t n)
{
	const double nl = c.GetEnvironment().NeighborLength;
	for (std::size_t i = 0; i < n; i++)
	{
		const auto& q = c.Particles()[i];
		if (q.TYPE() == DISABLED) { vp_reach("disabled"); continue; }
		const std::size_t cnt = T::Count(c, i);
		vp_check(cnt < n, "list length");
		if (cnt >= n) { vp_end(); }
		vp_outi("count", static_cast<long>(cnt));
		int seen[48] = {};
		for (std::size_t k = 0; k < cnt; k++)
		{
			const std::size_t j = T::Neighbor(c, i, k);
			vp_check(j < n, "entry");
			if (j >= n) { vp_end(); }
			seen[j]++;
		}
		for (std::size_t j = 0; j < n; j++)
		{
			const auto& s = c.Particles()[j];
			bool want = false;
			if (j != i && s.TYPE() != DISABLED)
			{
				want = Len(Minus(s.X(), q.X())) < nl;
			}
			vp_check(seen[j] == (want ? 1 : 0), "neighbour list");
			vp_reach(want ? "near" : "far");
		}
	}
}
#if SCEN == 3
extern "C" void vp_main()
{
	EnvArgs ea;
	// cells of 0.75 with room for 4 particles
	ea.re = 0.5; ea.courant = 0.25;
	ea.minX = -0.75; ea.minZ = 0.25; ea.maxX = ea.minX + 3; ea.maxZ = ea.minZ + 3; ea.maxY = 0.5;
	auto c = MakeComputer(ea);
	std::vector<Particle> ps;
	// crowded round the middle cell, in an order that differs from the cells'
	static const int order[9] = { 4, 0, 8, 2, 6, 1, 7, 3, 5 };
	for (int k = 0; k < 9; k++)
	{
		const int a = order[k] % 3, b = order[k] / 3;
		for (int m = 0; m < (k == 0 ? 3 : 4); m++)
		{
			const double sx = 0.0625*(1 + (m & 1)), sz = 0.0625*(1 + (m >> 1));
			const double x = a == 0 ? 0.75 - sx : (a == 2 ? 1.5 + sx : 0.75 + 0.375 - 1.5*sx + 0.03125*b);
			const double z = b == 0 ? 0.75 - sz : (b == 2 ? 1.5 + sz : 0.75 + 0.375 - 1.5*sz + 0.03125*a);
			ps.push_back(MakeParticle(TypeOf((k + m) % 3), ea.minX + x, ea.minZ + z, 0, 0, 0, 0, 0.25));
		}
	}
	const double t = vp_real("t", 0.75, 1.5);
	const bool along = vp_int("along", 0, 1) == 1;
	vp_assume(t < 1.5);
	ps.push_back(MakeParticle(TypeOf(0), ea.minX + (along ? t : 1.0), ea.minZ + (along ? 1.0625 : t), 0, 0, 0, 0, 0.25));
	const std::size_t n = ps.size();
	Fill(c, ps);
	T::Search(c);
	Check(c, n);
}
#else
extern "C" void vp_main()
{
	EnvArgs ea;
#if SCEN == 0
	constexpr int N = 2;
	// 3 and 1 cells of 1.875 inside, one more on each side beyond
	ea.minX = -1.25; ea.maxX = -1.25 + 4; ea.minZ = 0.5; ea.maxZ = 0.5 + 1.5; ea.minY = 0.25; ea.maxY = 1.5;
	const double lo[3] = { -1.5, 0.25, 0.5 - 2 }, hi[3] = { -1.25 + 5*1.875 + 0.5, 0.75, 0.5 + 3*1.875 + 0.5 };
#else
	constexpr int N = 3;
	ea.minX = 0; ea.maxX = 4; ea.minZ = 0; ea.maxZ = 4; ea.maxY = 1.75;
	const double lo[3] = { 0.5, 0, 0.5 }, hi[3] = { 3, 1, 3 };
#endif
	auto c = MakeComputer(ea);
	std::vector<Particle> ps;
	for (int i = 0; i < N; i++)
	{
#if SCEN == 0
		const int t = i == 0 ? 0 : vp_int("type", 0, 3);
#else
		static const int second[4] = { 1, 1, 2, 2 }, third[4] = { 0, 3, 2, 1 };
		const int mix = vp_int("mix", 0, 3);
		const int t = i == 0 ? 0 : (i == 1 ? second[mix] : third[mix]);
#endif
		// all in one cell, close together: the first search fills the lists that the second must replace
		ps.push_back(MakeParticle(TypeOf(t), ea.minX + 0.125*i, ea.minZ + 0.25, 0, 0, 0, 0, ea.minY + 0.125, 0));
	}
	Fill(c, ps);
	T::Search(c);
	Check(c, N);
	auto& p = T::P(c);
	for (int i = 0; i < N; i++)
	{
		p[i].X()[AX] = vp_reali("x", i, lo[0], hi[0]);
		p[i].X()[AZ] = vp_reali("z", i, lo[2], hi[2]);
#ifdef DIM3
		p[i].X()[1] = vp_reali("y", i, lo[1], hi[1]);
#endif
	}
	T::Search(c);
	Check(c, N);
}
#endif
#endif
