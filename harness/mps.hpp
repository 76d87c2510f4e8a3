// Common helpers of the particle harnesses: whitebox access through the repository's own test hook.
#ifndef VP_MPS_HPP
#define VP_MPS_HPP
#include "vp.hpp"
#include <vector>
#include <memory>
#include <cmath>
#define TEST_CONSTRUCTOR
#include "Computer.hpp"
#include "Particle.hpp"
#include "Environment.hpp"
#include "Vector.hpp"
#include "Grid.hpp"

#ifdef DIM3
#define VEC(a, b, c) CreateVector(static_cast<double>(a), static_cast<double>(b), static_cast<double>(c))
#else
#define VEC(a, b, c) CreateVector(static_cast<double>(a), static_cast<double>(c))
#endif

namespace { namespace OpenMps
{
	constexpr auto FLUID = Particle::Type::IncompressibleNewton;
	constexpr auto WALL = Particle::Type::Wall;
	constexpr auto DUMMY = Particle::Type::Dummy;
	constexpr auto DISABLED = Particle::Type::Disabled;
	constexpr std::size_t AX = AXIS_X;
	constexpr std::size_t AZ = AXIS_Z;

	// access to the stages of a step
	class ConstructorTest
	{
	public:
		template<typename C> static void Search(C& c) { c.SearchNeighbor(); }
		template<typename C> static void Densities(C& c) { c.ComputeNeighborDensities(); }
		template<typename C> static void Explicit(C& c) { c.ComputeExplicitForces(); }
		template<typename C> static void Implicit(C& c) { c.ComputeImplicitForces(); }
		template<typename C> static void Gradient(C& c) { c.ModifyByPressureGradient(); }
		template<typename C> static auto& P(C& c) { return c.particles; }
		template<typename C> static std::size_t Count(C& c, std::size_t i) { return c.NeighborCount(i); }
		template<typename C> static std::size_t Neighbor(C& c, std::size_t i, std::size_t k) { return c.Neighbor(i, k); }
#ifndef PRESSURE_EXPLICIT
		template<typename C> static void SetPpe(C& c) { c.SetPressurePoissonEquation(); }
		template<typename C> static void Solve(C& c) { c.SolvePressurePoissonEquation(); }
		template<typename C> static auto& Ppe(C& c) { return c.ppe; }
#endif
		// error correction and stabiliser have private names that may be absent in a configuration
#ifdef MPS_ECS
		template<typename C> static void Ecs(C& c) { c.ComputeErrorCorrection(); }
#endif
#ifdef MPS_DS
		template<typename C> static void SaveX(C& c) { c.SaveX(); }
		template<typename C> static void Stabilize(C& c) { c.DynamicStabilize(); }
#endif
		template<typename C> static auto Speed(C& c, std::size_t i) { return c.NeighborDensityVariationSpeed(i); }
		template<typename C> static auto& Env(C& c) { return c.environment; }
	};
	using T = ConstructorTest;

	struct EnvArgs
	{
		double maxDt = 1, courant = 0.125, g = 10, rho = 1, nu = 1, surfaceRatio = 0.95, re = 1.5, c = 16, l0 = 1;
		double minX = 0, minY = 0, minZ = 0, maxX = 1.5, maxY = 1.5, maxZ = 1.5;
	};
	inline Environment MakeEnv(const EnvArgs& a)
	{
		return Environment(a.maxDt, a.courant, a.g, a.rho, a.nu,
#ifndef MPS_SPP
			a.surfaceRatio,
#endif
			a.re,
#ifdef PRESSURE_EXPLICIT
			a.c,
#endif
			a.l0, a.minX,
#ifdef DIM3
			a.minY,
#endif
			a.minZ, a.maxX,
#ifdef DIM3
			a.maxY,
#endif
			a.maxZ);
	}

	// walls: prescribed position taken from a table, calls are logged
	struct Log
	{
		int pre = 0, wall = 0, wallBeforePre = 0;
		double preT = -1, preDt = -1, wallT = -1, wallDt = -1;
		Vector pos[64];
		Vector vel[8];
	};
	inline Log& TheLog() { static Log l; return l; }
	struct WallFn
	{
		Vector operator()(const std::size_t i, const double t, const double dt) const
		{
			Log& l = TheLog();
			l.wall++;
			if (l.pre == 0) { l.wallBeforePre++; }
			l.wallT = t; l.wallDt = dt;
			return l.pos[i];
		}
	};
	struct PreFn
	{
		void operator()(const double t, const double dt) const
		{
			Log& l = TheLog();
			l.pre++;
			l.preT = t; l.preDt = dt;
		}
	};
	static const WallFn wallFn{};
	static const PreFn preFn{};

	inline auto MakeComputer(const EnvArgs& a, const double eps = 0.0009765625)
	{
		(void)eps;
		return CreateComputer(
#ifndef PRESSURE_EXPLICIT
			eps,
#endif
			MakeEnv(a), wallFn, preFn);
	}

	inline Particle MakeParticle(Particle::Type t, double x, double z, double u, double w, double p, double n, double y = 0, double v = 0)
	{
		Particle q(t);
#ifdef DIM3
		q.X() = CreateVector(x, y, z);
		q.U() = CreateVector(u, v, w);
#else
		(void)y; (void)v;
		q.X() = CreateVector(x, z);
		q.U() = CreateVector(u, w);
#endif
		q.P() = p;
		q.N() = n;
		return q;
	}

	inline Particle::Type TypeOf(int k) { return static_cast<Particle::Type>(k); }

	inline double Dot(const Vector& a, const Vector& b)
	{
		double s = 0;
		for (std::size_t d = 0; d < DIM; d++) { s += a[d]*b[d]; }
		return s;
	}
	inline double Len(const Vector& a) { return vp_sqrt(Dot(a, a)); }
	inline Vector Minus(const Vector& a, const Vector& b)
	{
		Vector r = a;
		for (std::size_t d = 0; d < DIM; d++) { r[d] = a[d] - b[d]; }
		return r;
	}
	// adds the particles; with DIRTY the computer has already made a step with as many other ones, which leaves its traces in
	// everything a stage may keep from one step to the next
#ifdef DIRTY
#define VP_PARAM(name, lo, hi, value) (value)
	template<typename C> inline void Fill(C& c, std::vector<Particle>& ps)
	{
		const auto& env = c.GetEnvironment();
		std::vector<Particle> other;
		for (std::size_t k = 0; k < ps.size(); k++)
		{
			const double x = 0.3125 + 0.3125*(k % 3), z = 0.28125 + 0.40625*(k/3) + 0.046875*(k % 3)*(k % 3);
#ifdef DIM3
			other.push_back(MakeParticle(Particle::Type::IncompressibleNewton, env.MinX[AXIS_X] + x, env.MinX[AXIS_Z] + z, 1.0 - 0.75*k, 0.5*k - 1, 1.0 + k, 0, env.MinX[AXIS_Y] + 0.5 + 0.0625*k*k, 0.25*k));
#else
			other.push_back(MakeParticle(Particle::Type::IncompressibleNewton, env.MinX[AXIS_X] + x, env.MinX[AXIS_Z] + z, 1.0 - 0.75*k, 0.5*k - 1, 1.0 + k, 0));
#endif
		}
		c.AddParticles(std::move(other));
		try { c.ForwardTime(0.015625); } catch (const std::runtime_error&) { vp_reach("dirty step failed"); }
		for (std::size_t k = 0; k < ps.size(); k++) { T::P(c)[k] = ps[k]; }
		TheLog().pre = 0; TheLog().wall = 0; TheLog().wallBeforePre = 0;
		vp_reach("used before");
	}
#else
#define VP_PARAM(name, lo, hi, value) vp_real(name, lo, hi)
	template<typename C> inline void Fill(C& c, std::vector<Particle>& ps) { c.AddParticles(std::move(ps)); }
#endif
	// reference weight function
	inline double RefW(double r, double re)
	{
		if (r > 0) { if (r < re) { return re/r - 1; } }
		return 0;
	}
	inline void Out(const Particle& q)
	{
		for (std::size_t d = 0; d < DIM; d++) { vp_out("x", q.X()[d]); vp_out("u", q.U()[d]); }
		vp_out("p", q.P()); vp_out("n", q.N());
		vp_outi("t", static_cast<long>(q.TYPE()));
	}
}}
using namespace OpenMps;
#endif
