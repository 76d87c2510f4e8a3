// C23: whole steps against the reference step.
// WHAT limits the comparison to what one stage produces: 6 densities, 10 walls, 12 source, 13 matrix, 15 pressures, 16 fluid motion
#include "ref.hpp"
#ifndef NP
#define NP 4
#endif
#ifndef WHAT
#define WHAT 0
#endif
#ifndef LAYOUTS
#define LAYOUTS 4
#endif
// chains with a dense and a sparse end, so that the pressure equation has a solution; types differ by layout and rotation
static std::vector<Particle> Chain(const int layout, const int rot)
{
	static const double X[4][5][3] = {
		{ { 0.5, 0.5, 0.5 }, { 0.75, 0.625, 0.875 }, { 1.5, 0.75, 1.25 }, { 0.25, 0.375, 1.5 }, { 1.75, 0.5, 0.5 } },
		{ { 1, 0.5, 1 }, { 1.25, 0.25, 0.6875 }, { 0.5, 0.75, 1.625 }, { 2, 0.5, 1.25 }, { 1.0625, 0.625, 2 } },
		{ { 0.5, 0.5, 0.5 }, { 0.6875, 0.5, 0.75 }, { 1.4375, 0.75, 1 }, { 0.75, 0.875, 1.6875 }, { 19, 0.5, 19 } },
		{ { 0.5, 0.5, 0.5 }, { 1.5, 0.25, 0.75 }, { -9, 0.5, 1 }, { 0.5, 0.75, 1.4375 }, { 0.875, 0.625, 0.625 } } };
	static const int TYPES[4][5] = { { 0, 0, 0, 1, 0 }, { 0, 1, 0, 0, 2 }, { 0, 0, 1, 2, 0 }, { 1, 0, 0, 0, 3 } };
	std::vector<Particle> r;
	for (int i = 0; i < NP; i++)
	{
		const double* x = X[layout][i];
		r.push_back(MakeParticle(TypeOf(TYPES[(layout + rot) % 4][i]), x[0], x[2], 0.5 - 0.25*i, 0.25 - 0.125*i*i, 0, i, x[1], 0.0625*i));
	}
	return r;
}
#ifdef BLOCK
#include "block.hpp"
#endif
extern "C" void vp_main()
{
	EnvArgs ea = Args();
	ea.minX = ea.minY = ea.minZ = -2; ea.maxX = ea.maxY = ea.maxZ = 5;
	ea.surfaceRatio = 0.5;
#ifdef BLOCK
	const double dt = 0.00390625;
#else
	const double dt = 0.015625;
#endif
#ifdef BLOCK
	ea.maxX = ea.maxY = ea.maxZ = 10;
#ifdef RE
	ea.re = RE;
#endif
#endif
	const int layout = vp_int("layout", 0, LAYOUTS - 1), rot = vp_int("rot", ROTLO, ROTHI);
#ifdef BLOCK
	auto ps = Block(layout);
	(void)rot;
#else
	auto ps = Chain(layout, rot);
#endif
#ifdef ONE
	ps[NP > 8 ? 7 : 0].P() = vp_real("p0", NP > 8 ? 2 : 1, 4);
	const double eps = 1000;
#else
	ea.rho = vp_real("rho", 0.5, 4);
	const double eps = 1.0/(1ll << 33);
#endif
	// anywhere in space
	const double sx = vp_real("sx", -100, 100), sz = vp_real("sz", -100, 100);
	ea.minX += sx; ea.maxX += sx; ea.minZ += sz; ea.maxZ += sz;
	for (auto& p : ps) { p.X()[AX] += sx; p.X()[AZ] += sz; }
	(void)eps;
	auto c = CreateComputer(
#ifndef PRESSURE_EXPLICIT
		eps,
#endif
		MakeEnv(ea), readWall, noPre);
	Ref ref;
	ref.ea = ea; ref.n0 = c.GetEnvironment().N0(); ref.re = c.GetEnvironment().R_e;
#ifndef MPS_HL
	ref.lambda = c.GetEnvironment().Lambda();
#endif
#ifdef ONE
	ref.one = true;
#endif
	for (const auto& p : ps) { ref.ps.push_back({ static_cast<int>(p.TYPE()), p.X(), p.U(), p.P(), p.N() }); }
	std::vector<Vector> home;
	for (const auto& p : ps) { home.push_back(p.X()); }
	c.AddParticles(std::move(ps));
	for (int s = 1; s <= STEPS; s++)
	{
		ref.wall.clear();
		for (int i = 0; i < NP; i++)
		{
			Vector w = home[i];
#ifdef BLOCK
			w[AX] += 0.00390625*s; w[AZ] -= 0.001953125*s*(i % 3);	// nobody may move further than the search radius provides for
#else
			w[AX] += 0.03125*s; w[AZ] -= 0.015625*s*(i + 1);
#endif
			if (s == 2) { if (i == NP - 1) { w[AX] = ea.minX - 1; } }	// a wall leaves after the second step
			TheWalls().pos[i] = w;
			ref.wall.push_back(w);
		}
		ref.Step(s == 2 ? dt*0.5 : dt);
		// no unique solution, or neighbours in one line: rounding decides
		vp_assume(!ref.singular);
		const bool ok = Step(c, s == 2 ? dt*0.5 : dt);
		vp_check(ok, "step succeeds");
		if (!ok) { return; }
		if (ref.solved) { vp_reach("solved"); }
#if WHAT == 0
		vp_eq(c.GetEnvironment().T(), ref.t, "time");
#endif
#if WHAT == 12 || WHAT == 13
		auto& ppe = T::Ppe(c);
#if WHAT == 12
		for (int i = 0; i < NP; i++) { vp_eq(ppe.b(i), ref.source[i], "source"); }
#else
		for (int j = 0; j < NP; j++)
		{
			auto e = ppe.b, col = ppe.b;
			for (int i = 0; i < NP; i++) { e(i) = i == j ? 1 : 0; }
#ifdef USE_VIENNACL
			col = viennacl::linalg::prod(ppe.A, e);
#else
			col = boost::numeric::ublas::prod(ppe.A, e);
#endif
			for (int i = 0; i < NP; i++) { vp_eq(col(i), ref.matrix[i][j], "coefficient"); }
		}
#endif
#endif
		for (int i = 0; i < NP; i++)
		{
			const auto& p = c.Particles()[i];
			const auto& q = ref.ps[i];
#if WHAT == 0
			vp_check(static_cast<int>(p.TYPE()) == q.type, "type");
#endif
#if WHAT == 0 || WHAT == 10 || WHAT == 16
			if (WHAT == 0 || (WHAT == 16) == (q.type == 0))
			{
				for (std::size_t d = 0; d < DIM; d++)
				{
					vp_eq(p.X()[d], q.x[d], "position");
					vp_eq(p.U()[d], q.u[d], "velocity");
				}
			}
#endif
			if (q.type < 2)
			{
#if WHAT == 0 || WHAT == 15
				vp_eq(p.P(), q.p, "pressure");
#endif
#if WHAT == 0 || WHAT == 6
				vp_eq(p.N(), q.n, "density");
#endif
			}
			Out(p);
		}
	}
	vp_reach("compared");
}
