// Shared by the checks that compare two computations: layouts, walls taken from a table, comparison of states.
#ifndef VP_PAIRS_HPP
#define VP_PAIRS_HPP
#include "mps.hpp"
// the prescribed motion itself may be called from any thread: this one only reads what the preparation of the step wrote
struct Walls { Vector pos[64]; double prepared = 0; };
static Walls& TheWalls() { static Walls w; return w; }
struct ReadWall { Vector operator()(const std::size_t i, const double t, const double) const { Vector x = TheWalls().pos[i]; x[AX] += t - TheWalls().prepared; return x; } };
struct NoPre { void operator()(const double t, const double) const { TheWalls().prepared = t; } };
static const ReadWall readWall{};
static const NoPre noPre{};
static auto Create(const EnvArgs& a)
{
	return CreateComputer(
#ifndef PRESSURE_EXPLICIT
		1000.0,
#endif
		MakeEnv(a), readWall, noPre);
}
static EnvArgs Args()
{
	EnvArgs ea;
	ea.g = 4; ea.nu = 0.5; ea.rho = 2; ea.c = 1; ea.maxX = ea.maxY = ea.maxZ = 3;
#ifdef DIM3
	ea.re = 1.5;
#else
	ea.re = 1.25;
#endif
	return ea;
}
template<typename C> static bool Step(C& c, double dt)
{
	try { c.ForwardTime(dt); }
	catch (const std::runtime_error&) { return false; }
	return true;
}
// the same with the time step chosen by the computer
template<typename C> static bool StepAuto(C& c)
{
	try { c.ForwardTime(); }
	catch (const std::runtime_error&) { return false; }
	return true;
}
// close layouts in general position; types differ by layout and rotation
static std::vector<Particle> Layout(const int layout, const int rot, const int n, const int axis = -1)
{
#ifdef DIM3
	static const double X[3][5][3] = {
		{ { 0.5, 0.5, 0.5 }, { 0.875, 0.5, 0.625 }, { 0.5, 0.875, 0.375 }, { 0.375, 0.625, 0.9375 }, { 0.875, 0.875, 1 } },
		{ { 1.5, 1.5, 1.5 }, { 1.5625, 1.25, 1.25 }, { 1, 1.5, 1.375 }, { 1.25, 1.0625, 1.75 }, { 1.625, 1.625, 2 } },
		{ { 0.5, 0.5, 0.5 }, { 0.875, 0.5, 0.625 }, { 0.5, 0.875, 0.375 }, { 0.375, 0.625, 0.9375 }, { 9, 9, 9 } } };
#else
	static const double X[3][5][3] = {
		{ { 0.5, 0, 0.5 }, { 0.6875, 0, 0.75 }, { 0.25, 0, 0.625 }, { 0.5, 0, 1 }, { 0.75, 0, 0.25 } },
		{ { 1.5, 0, 1.5 }, { 1.625, 0, 1.25 }, { 1.25, 0, 1.4375 }, { 1.0625, 0, 1.75 }, { 1.75, 0, 1.75 } },
		{ { 0.5, 0, 0.5 }, { 0.875, 0, 0.75 }, { 0.25, 0, 1 }, { 0.625, 0, 0.8125 }, { -9, 0, 9 } } };
#endif
	static const int TYPES[3][5] = { { 0, 0, 1, 2, 0 }, { 0, 1, 0, 0, 3 }, { 0, 0, 0, 1, 0 } };
	std::vector<Particle> r;
	for (int i = 0; i < n; i++)
	{
		const double* x = X[layout][i];
		r.push_back(MakeParticle(TypeOf(TYPES[(layout + rot) % 3][i]), x[0], x[2], 0.5 - 0.25*i, 0.25 - 0.125*i, 1.5*i, i, x[1], 0.0625*i));
	}
	(void)axis;
	return r;
}
static void Same(const Particle& p, const Particle& q)
{
	vp_check(p.TYPE() == q.TYPE(), "type");
	for (std::size_t k = 0; k < DIM; k++)
	{
		vp_eq(p.X()[k], q.X()[k], "position");
		vp_eq(p.U()[k], q.U()[k], "velocity");
	}
	vp_eq(p.P(), q.P(), "pressure");
	vp_eq(p.N(), q.N(), "density");
}
#endif
