// C04: the search grid against a set model.
// SCEN 0: one stored point, one query point, anywhere (including outside), adjacent cells find it exactly once.
// SCEN 1: capacity: a cell takes exactly MaxParticles() particles, the next one raises Grid::Exception; clearing forgets all.
// SCEN 2: several particles in symbolically chosen cells; every stored particle's search finds exactly those in adjacent cells.
#include "mps.hpp"
#ifndef SCEN
#define SCEN 0
#endif
static const double L = 1.5;
static Vector Lo() { return VEC(-1.25, 0.25, 0.5); }
static Vector Hi() { return VEC(-1.25 + SX, 0.25 + SY, 0.5 + SZ); }
static long Cells(std::size_t d)
{
	const double s[3] = { SX, SY, SZ };
	const double len = DIM == 3 ? s[d] : (d == 0 ? s[0] : s[2]);
	long n = 0;
	while (static_cast<double>(n)*L < len) { n++; }
	return n + 2;
}
static bool Cell(const Vector& x, long* out)
{
	const Vector lo = Lo();
	bool in = true;
	for (std::size_t d = 0; d < DIM; d++)
	{
		const double q = (x[d] - lo[d])/L;
		long n = -1000000;
		if (q < 0) { in = false; }
		else
		{
			for (n = 0; n < Cells(d) && !(q < static_cast<double>(n + 1)); n++) {}
			if (n >= Cells(d)) { in = false; }
		}
		out[d] = n;
	}
	return in;
}
static int Found(const Grid& g, const Vector& x, std::size_t id)
{
	int n = 0, total = 0;
	const auto end = g.cend();
	for (auto it = g.cbegin(x); !(it == end); ++it)
	{
		total++;
		if (total > 64) { vp_check(false, "search ends"); vp_end(); }
		if (*it == id) { n++; }
	}
	return n;
}
extern "C" void vp_main()
{
	Grid g(L, L0, Lo(), Hi());
#if SCEN == 0
	g.Clear();
	double v[2][3];
	for (int i = 0; i < 2; i++)
	{
		v[i][0] = vp_reali("x", i, -1.25 - 3, -1.25 + SX + 7); v[i][2] = vp_reali("z", i, 0.5 - 3, 0.5 + SZ + 7);
#ifdef DIM3
		v[i][1] = vp_reali("y", i, 0.25 - 3, 0.25 + SY + 7);
#else
		v[i][1] = 0;
#endif
	}
	const Vector a = VEC(v[0][0], v[0][1], v[0][2]), b = VEC(v[1][0], v[1][1], v[1][2]);
	long ca[3], cb[3];
	const bool ina = Cell(a, ca);
	const bool ok = g.Store(a, 7);
	vp_check(ok == ina, "stored iff inside");
	if (!ok) { vp_reach("outside"); return; }
	vp_check(Found(g, a, 7) == 1, "found at its own position");
	const bool inb = Cell(b, cb);
	const bool okb = g.Store(b, 9);
	vp_check(okb == inb, "stored iff inside");
	if (!okb) { return; }
	bool adjacent = true;
	for (std::size_t d = 0; d < DIM; d++) { const long k = ca[d] - cb[d]; if (k > 1 || k < -1) { adjacent = false; } }
	vp_reach(adjacent ? "adjacent" : "apart");
	vp_check(Found(g, b, 7) == (adjacent ? 1 : 0), "found from the other");
	vp_check(Found(g, a, 9) == (adjacent ? 1 : 0), "found from the other");
	vp_check(Found(g, b, 9) == 1, "found at its own position");
	g.Clear();
	vp_check(g.Store(b, 9), "stored again");
	vp_check(Found(g, b, 9) == 1, "found again");
	vp_check(Found(g, b, 7) == 0, "forgotten");
#elif SCEN == 1
	long cap = 1;
	for (std::size_t d = 0; d < DIM; d++) { long k = 0; while (static_cast<double>(k)*L0 < L) { k++; } cap *= k + 1; }
	vp_check(g.MaxParticles() == static_cast<std::size_t>(cap), "advertised capacity");
	// the cell of one symbolic point, its capacity used by points anywhere in that cell
	const Vector lo = Lo();
	long c[3];
	const long cy = DIM == 3 ? vp_int("cy", 0, static_cast<int>(Cells(1)) - 1) : 0;
	const long cx = vp_int("cx", 0, static_cast<int>(Cells(0)) - 1), cz = vp_int("cz", 0, static_cast<int>(Cells(DIM - 1)) - 1);
	(void)lo; (void)c;
	for (int round = 0; round < 2; round++)
	{
		g.Clear();
		for (long k = 0; k <= cap + 1; k++)
		{
			const int m = static_cast<int>(k) + 100*round;
			const double fx = k < 2 ? vp_reali("fx", m, 0, 0.999) : 0.5, fz = k < 2 ? vp_reali("fz", m, 0, 0.999) : 0.25, fy = 0.375;
			const Vector x = VEC(-1.25 + L*(static_cast<double>(cx) + fx), 0.25 + L*(static_cast<double>(cy) + fy), 0.5 + L*(static_cast<double>(cz) + fz));
			bool full = false, ok = false;
			try { ok = g.Store(x, static_cast<std::size_t>(k)); }
			catch (const Grid::Exception&) { full = true; }
			if (k < cap) { vp_check(!full && ok, "accepts its capacity"); if (!ok) { return; } }
			else { vp_check(full, "refuses more with an error"); vp_reach("full"); }
			if (k == cap - 1 || k == 0 || k > cap)
			{
				for (long j = 0; j <= k; j++) { vp_check(Found(g, x, static_cast<std::size_t>(j)) == (j < cap ? 1 : 0), k > cap ? "all found after a refusal" : "all found"); }
			}
		}
	}
#else
	constexpr int N = 4;
	g.Clear();
	Vector x[N]; long c[N][3]; bool in[N];
	for (int i = 0; i < N; i++)
	{
		// one of 2x2 neighbouring cells at a corner or in the middle, plus a far one
		const double px = i == 0 ? vp_reali("x", i, -1.25, -1.25 + L) : (i == 1 ? vp_reali("x", i, -1.25, -1.25 + 3*L) : -1.25 + 0.25 + L*vp_inti("cx", i, 0, 1));
		const double pz = i == 0 ? 0.75 : (i == 1 ? 0.5 + 1.25*L : 0.5 + 0.5*L + L*vp_inti("cz", i, 0, 1));
		x[i] = VEC(px, 0.5, pz);
		in[i] = Cell(x[i], c[i]);
		vp_check(g.Store(x[i], static_cast<std::size_t>(i)) == in[i], "stored iff inside");
	}
	for (int i = 0; i < N; i++)
	{
		if (!in[i]) { continue; }
		for (int j = 0; j < N; j++)
		{
			bool adj = in[j];
			for (std::size_t d = 0; d < DIM; d++) { const long k = c[i][d] - c[j][d]; if (k > 1 || k < -1) { adj = false; } }
			vp_check(Found(g, x[i], static_cast<std::size_t>(j)) == (adj ? 1 : 0), "search");
		}
	}
	g.Clear();
	vp_check(g.Store(x[0], 11), "stored after clearing");
	for (int j = 0; j < N; j++) { vp_check(Found(g, x[0], static_cast<std::size_t>(j)) == 0, "cleared"); }
	vp_check(Found(g, x[0], 11) == 1, "found after clearing");
#endif
}
