// C22: every setting reaches the parameter it names.
#include "app.hpp"
static void Put(boost::property_tree::ptree& x, const char* section, const char* name, const std::string& v)
{
	x.put(std::string("openmps.") + section + "." + name + ".<xmlattr>.value", v);
}
extern "C" void vp_main()
{
	const double start = vp_real("start", -1000, 1000), end = vp_real("end", -1000, 1000), interval = vp_real("interval", 0, 1000), eps = vp_real("eps", 0, 1);
	const double l0 = vp_real("l0", 0, 100), courant = vp_real("courant", 0, 1), g = vp_real("g", 0, 1000), rho = vp_real("rho", 0, 100000), nu = vp_real("nu", 0, 1000);
	const double surface = vp_real("surface", 0, 1), sound = vp_real("c", 0, 10000);
	vp_assume(interval > 0); vp_assume(l0 > 0); vp_assume(courant > 0); vp_assume(g > 0); vp_assume(rho > 0); vp_assume(sound > 0);
	const int steps = vp_int("steps", 1, 3);
	static const double RATIO[] = { 1, 1.5, 2.5, 3.125 };
	const double re = RATIO[vp_int("ratio", 0, 3)];
	const double minX = vp_real("minX", -1000, 1000), minY = vp_real("minY", -1000, 1000), minZ = vp_real("minZ", -1000, 1000);
	const double maxX = vp_real("maxX", -1000, 1000), maxY = vp_real("maxY", -1000, 1000), maxZ = vp_real("maxZ", -1000, 1000);
	(void)minY; (void)maxY; (void)surface;

	boost::property_tree::ptree x;
	// settings in an order of their own, and some nobody asks for
	Put(x, "environment", "maxZ", Num(maxZ));
	Put(x, "environment", "maxX", Num(maxX));
	Put(x, "environment", "maxY", Num(maxY));
	Put(x, "environment", "minZ", Num(minZ));
	Put(x, "environment", "minX", Num(minX));
	Put(x, "environment", "minY", Num(minY));
	Put(x, "environment", "c", Num(sound));
	Put(x, "environment", "surfaceRatio", Num(surface));
	Put(x, "environment", "r_eByl_0", Num(re));
	Put(x, "environment", "nu", Num(nu));
	Put(x, "environment", "rho", Num(rho));
	Put(x, "environment", "g", Num(g));
	Put(x, "environment", "courant", Num(courant));
	Put(x, "environment", "minStepCountPerOutput", std::to_string(steps));
	Put(x, "environment", "l_0", Num(l0));
	Put(x, "condition", "eps", Num(eps));
	Put(x, "condition", "outputInterval", Num(interval));
	Put(x, "condition", "endTime", Num(end));
	Put(x, "condition", "startTime", Num(start));

#ifdef MISSING
	// without a setting that is needed nothing is made up
	static const char* const NEEDED[] = { "condition.startTime", "condition.endTime", "condition.outputInterval", "environment.l_0", "environment.minStepCountPerOutput",
		"environment.courant", "environment.g", "environment.rho", "environment.nu", "environment.r_eByl_0", "environment.minX", "environment.minZ", "environment.maxX", "environment.maxZ",
#ifdef DIM3
		"environment.minY", "environment.maxY",
#endif
#ifndef MPS_SPP
		"environment.surfaceRatio",
#endif
#ifdef PRESSURE_EXPLICIT
		"environment.c",
#else
		"condition.eps",
#endif
	};
	const int miss = vp_int("missing", 0, static_cast<int>(sizeof NEEDED/sizeof NEEDED[0]) - 1);
	x.vp_erase(std::string("openmps.") + NEEDED[miss] + ".<xmlattr>.value");
	bool thrown = false;
	try
	{
		const auto c = LoadCondition(x);
		const auto e = LoadEnvironment(x, 1.0);
		vp_outi("loaded", 1);
	}
	catch (const std::exception&) { thrown = true; }
	vp_check(thrown, "missing setting is an error");
#else
	const auto c = LoadCondition(x);
	vp_eq(c.StartTime, start, "start time");
	vp_eq(c.EndTime, end, "end time");
	vp_eq(c.OutputInterval, interval, "output interval");
#ifndef PRESSURE_EXPLICIT
	vp_eq(c.Eps, eps, "tolerance");
#endif
	const auto e = LoadEnvironment(x, c.OutputInterval);
	vp_eq(e.L_0, l0, "particle spacing");
	vp_eq(e.MaxDx, courant*l0, "Courant number");
	vp_eq(e.Rho, rho, "density");
	vp_eq(e.Nu, nu, "viscosity");
	vp_eq(e.R_e, re*l0, "influence radius");
	for (std::size_t d = 0; d < DIM; d++) { vp_eq(e.G[d], d == AXIS_Z ? -g : 0, "gravity"); }
	vp_eq(e.MinX[AXIS_X], minX, "lower bound in x"); vp_eq(e.MaxX[AXIS_X], maxX, "upper bound in x");
	vp_eq(e.MinX[AXIS_Z], minZ, "lower bound in z"); vp_eq(e.MaxX[AXIS_Z], maxZ, "upper bound in z");
#ifdef DIM3
	vp_eq(e.MinX[AXIS_Y], minY, "lower bound in y"); vp_eq(e.MaxX[AXIS_Y], maxY, "upper bound in y");
#endif
#ifndef MPS_SPP
	vp_eq(e.SurfaceRatio, surface, "surface ratio");
#endif
#ifdef PRESSURE_EXPLICIT
	vp_eq(e.C, sound, "speed of sound");
#endif
	// the cap: one of the shares of the interval, the fall over a Courant distance (and the Courant distance of sound)
	vp_le(e.MaxDt, interval/steps, "maximum step within the output share");
	vp_eq(e.T(), 0, "time starts at zero");
	vp_out("maxDt", e.MaxDt);
#ifdef PRESSURE_EXPLICIT
	const bool fine = interval/steps <= courant*l0/sound;
#else
	const bool fine = (interval/steps)*(interval/steps) <= 2*courant*l0/g;
#endif
	if (fine)
	{
		vp_eq(e.MaxDt, interval/steps, "maximum step from the output interval");
		vp_reach("from the interval");
	}
#endif
}
