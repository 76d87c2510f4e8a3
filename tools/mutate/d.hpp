#include <cstdio>
#include <cmath>
#include <functional>
#include <vector>
#include <string>
#include <stdexcept>
#include "Computer.hpp"
using namespace OpenMps;
using Ty = Particle::Type;
using WallF = std::function<Vector(std::size_t, double, double)>;
using PreF = std::function<void(double, double)>;
using Comp = Computer<WallF, PreF>;
static const Ty FL = Ty::IncompressibleNewton, WA = Ty::Wall, DU = Ty::Dummy, DI = Ty::Disabled;
static Particle P(Ty t, double x, double z, double u = 0, double w = 0, double p = 0, double n = 0)
{
	Particle q(t);
	q.X()[AXIS_X] = x; q.X()[AXIS_Z] = z;
	q.U()[AXIS_X] = u; q.U()[AXIS_Z] = w;
	q.P() = p; q.N() = n;
	return q;
}
struct Opt { double maxDt = 0.01, courant = 0.1, g = 9.8, rho = 1000, nu = 1e-2, re = 2.4, l0 = 0.1, min = 0, maxX = 3, maxZ = 3; };
static Environment Env(const Opt& o = {})
{
	return Environment(o.maxDt, o.courant, o.g, o.rho, o.nu, o.re, o.l0, o.min, o.min, o.maxX, o.maxZ);
}
static Comp Make(const Environment& e, WallF w, PreF p = [](double, double) {}, double eps = 1e-9) { return Comp(eps, e, w, p); }
static Comp MakeFixed(const Environment& e, const std::vector<Particle>& ps, double eps = 1e-9)
{
	std::vector<Vector> x0;
	for (auto& q : ps) x0.push_back(q.X());
	auto c = Make(e, [x0](std::size_t i, double, double) { return x0[i]; }, [](double, double) {}, eps);
	c.AddParticles(std::vector<Particle>(ps));
	return c;
}
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
static bool Near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * std::max(1.0, std::max(std::abs(a), std::abs(b))); }
