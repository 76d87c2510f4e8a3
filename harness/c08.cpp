// C08: simulated time and result files follow the configured schedule; failures stop the run with a message.
#include "app.hpp"
static void Put(const char* section, const char* name, const std::string& v)
{
	vp_xml().put(std::string("openmps.") + section + "." + name + ".<xmlattr>.value", v);
}
static std::string Row(int type, const std::string& x, const std::string& z, const std::string& u, const std::string& w)
{
#ifdef DIM3
	return std::to_string(type) + ", " + x + ", 4, " + z + ", " + u + ", 0, " + w + ", 0, 0\n";
#else
	return std::to_string(type) + ", " + x + ", " + z + ", " + u + ", " + w + ", 0, 0\n";
#endif
}
static std::string FileName(long k)
{
	std::string n = std::to_string(k);
	while (n.size() < 5) { n = "0" + n; }
	return "result/particles_" + n + ".csv";
}
static bool Mentions(const std::string& text, const std::string& what)
{
	return text.find(what) != std::string::npos;
}

extern "C" void vp_main()
{
#if SCEN == 4
	const double g = 0;			// a free particle's position tells the simulated time
#else
	const double g = 0.03125;	// a free particle's speed tells the simulated time
#endif
	double interval = 1, start = 0, length = 3, maxDt = 1, u0 = 0, w0 = 0;
	int perOutput = 1, failStep = 1000;
	const double l0 = 1, courant = 1;
#ifdef DIM3
	std::string table = "Type, x, y, z, u, v, w, p, n\n";
#else
	std::string table = "Type, x, z, u, w, p, n\n";
#endif
#if SCEN == 0
	// any schedule; the first step is limited by the speed a wall starts with
	interval = vp_int("half", 0, 1) ? 0.5 : 1;
	perOutput = vp_int("steps", 1, 2);
	start = vp_real("start", 0, 2.5);
	length = vp_real("length", 0, 2.5);
	vp_assume(length <= 2.25*interval);
	u0 = vp_real("u0", 0, 8);
	table += Row(0, "8", "14", "0", "0") + Row(1, "2", "2", Num(u0), "0");
#endif
#if SCEN == 1
	// a cell overflows when a particle falls into it
	perOutput = 2;
	Grid grid(1.25*l0*(1 + 2*courant), l0, VEC(0, 0, 0), VEC(16, 8, 16));
	const int full = static_cast<int>(grid.MaxParticles());
	w0 = -0.5;
	const double h = vp_real("h", 0.125, 1.125);
	table += Row(0, "2", Num(3.75 + h), "0", Num(w0));
	for (int i = 0; i < full; i++) { table += Row(2, Num(0.0625*(i % 8)), Num(0.0625*(i/8)), "0", "0"); }
	{
		// the particle is found in the full cell at the start of this step
		double z = 3.75 + h, w = w0;
		for (failStep = 1; failStep < 50; failStep++)
		{
			if (z < 3.75) { break; }
			w -= g/2; z += w/2;
		}
	}
#endif
#if SCEN == 2
	// two approaching particles make the pressure equation unsolvable in a chosen step
	const int k = vp_int("k", 1, 4);
	failStep = k;
	perOutput = vp_int("steps", 1, 2);
	const double d = 0.5 + k*(perOutput == 1 ? 1.0 : 0.5*2);
	table += Row(0, Num(8 - d/2), "8", perOutput == 1 ? "0.5" : "1", "0") + Row(0, Num(8 + d/2), "8", perOutput == 1 ? "-0.5" : "-1", "0");
#endif
#if SCEN == 3
	// a tolerance that nothing meets
	failStep = 1;
	table += Row(0, "8", "14", "0", "0") + Row(0, "2", "2", "0", "0");
#endif
#if SCEN == 4
	// steps limited by the speed of a particle, so that they do not divide the interval
	perOutput = vp_int("steps", 1, 2);
	interval = vp_int("half", 0, 1) ? 0.5 : 1;
	start = 0.25;
	length = 3*interval;
	u0 = vp_real("u0", 0.5, 5);
	vp_assume(u0*interval <= 2.5);
	table += Row(0, "1", "14", Num(u0), "0");
#endif
#if SCEN == 5
	// a table without particles
	interval = vp_int("half", 0, 1) ? 0.5 : 1;
	perOutput = vp_int("steps", 1, 2);
	start = vp_real("start", 0, 2.5);
	length = vp_real("length", 0, 2.5);
	vp_assume(length <= 2.25*interval);
#endif
	maxDt = interval/perOutput;
	Put("condition", "startTime", Num(start));
	Put("condition", "endTime", Num(start + length));
	Put("condition", "outputInterval", Num(interval));
	Put("condition", "eps", SCEN == 3 ? "nan" : Num(0.0009765625));
	Put("environment", "l_0", Num(l0));
	Put("environment", "minStepCountPerOutput", std::to_string(perOutput));
	Put("environment", "courant", Num(courant));
	Put("environment", "g", Num(g));
	Put("environment", "rho", "2");
	Put("environment", "nu", "0");
	Put("environment", "r_eByl_0", Num(1.25));
	Put("environment", "c", "0.5");
	Put("environment", "surfaceRatio", Num(0.96875));
	Put("environment", "minX", "0"); Put("environment", "minY", "0"); Put("environment", "minZ", "0");
	Put("environment", "maxX", "16"); Put("environment", "maxY", "8"); Put("environment", "maxZ", "16");
	vp_xml().put("openmps.particles", table);
	vp_xml().put("openmps.particles.<xmlattr>.type", "csv");

	const char* const args[] = { "openmps", "settings.xml" };
	bool escaped = false;
	try { app_main(2, args); }
	catch (...) { escaped = true; }
	vp_check(!escaped, "no failure escapes");
	vp_check(vp_xml_name() == "settings.xml", "settings file");

	// the schedule
	long first = 0, outputs = 0;
	while (static_cast<double>(first)*interval < start) { first++; }
	while (static_cast<double>(outputs)*interval < length) { outputs++; }
	std::vector<double> expected{ 0 };
	double t = 0, speed = u0 < 0 ? -u0 : u0;
	int step = 0;
	bool failed = false;
	for (long k = 1; k <= outputs; k++)
	{
		if (failed) { break; }
		while (t < static_cast<double>(k)*interval)
		{
			step++;
			if (step == failStep) { failed = true; break; }
			if (speed*maxDt > courant*l0) { t += courant*l0/speed; } else { t += maxDt; }
			if (SCEN == 0) { speed = 0; }	// the wall has stopped
		}
		if (!failed) { expected.push_back(t); }
	}
	const long n = static_cast<long>(expected.size());
	vp_check(static_cast<long>(Files().size()) == n, "number of result files");
	vp_check(static_cast<long>(Opened().size()) == n, "every file written once");
	vp_outi("files", static_cast<long>(Files().size()));
	if (static_cast<long>(Files().size()) != n) { return; }
	bool ok = true;
	for (long k = 0; k < n; k++)
	{
		vp_check(Files()[k].name == FileName(first + k), "file names");
		const auto lines = Lines(Files()[k].text);
#if SCEN == 5
		vp_check(lines.size() == 1, "table without lines");
		continue;
#endif
		vp_check(lines.size() > 1, "table");
		if (lines.size() < 2) { return; }
		const auto header = Cells(lines[0]), cells = Cells(lines[1]);
		for (std::size_t c = 0; c < header.size(); c++)
		{
			if (header[c] == (SCEN == 4 ? "x" : "w")) { vp_eq(CellValue(cells[c], ok), SCEN == 4 ? 1 + u0*expected[k] : w0 - g*expected[k], "time of the output"); vp_out("w", CellValue(cells[c], ok)); }
		}
	}
	vp_check(ok, "numbers");
	vp_check(failed == (Mentions(Console(), "ERROR") || Mentions(Console(), "rror")), "error message");
	if (failed)
	{
		if (SCEN == 1) { vp_check(Mentions(Console(), "Too many particle"), "reason of the failure"); }
		if (SCEN >= 2) { vp_check(Mentions(Console(), "Conjugate Gradient"), "reason of the failure"); }
		vp_reach("failed");
	}
	else { vp_reach("finished"); }
}
