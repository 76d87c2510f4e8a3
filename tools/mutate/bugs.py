INC='#include "d.hpp"\n'
bug('c02_floor','C02','Grid.hpp',[('return static_cast<Index>(std::floor(a / b));','return static_cast<Index>(a / b);')],INC+r'''
int main()
{
	// just below the lower bound: less than one cell outside
	for (double x : { -0.01, -0.1, -0.2 })
	{
		auto c = MakeFixed(Env(), { P(FL, x, 1.0), P(FL, 1.0, x) });
		c.ForwardTime(1e-4);
		CHECK(c.Particles()[0].TYPE() == DI);
		CHECK(c.Particles()[1].TYPE() == DI);
	}
	return bad;
}
''','a particle that leaves the domain through a lower bound and is still less than one grid cell outside when the next step starts','block numbers are truncated towards zero, so a particle just below the lower bound is filed in block 0 and stays alive')
bug('c04_capacity','C04','Grid.hpp',[('if(l >= maxCount)','if(l > maxCount)')],INC+r'''
int main()
{
	const auto e = Env();
	Grid g(e.NeighborLength, e.L_0, e.MinX, e.MaxX);
	g.Clear();
	const auto x = CreateVector(1.0, 1.0);
	for (std::size_t i = 0; i < g.MaxParticles(); i++) CHECK(g.Store(x, i + 100));
	bool thrown = false;
	try { g.Store(x, 7); } catch (const Grid::Exception&) { thrown = true; }
	CHECK(thrown);
	return bad;
}
''','a grid cell that receives exactly one particle more than its capacity','the surplus particle is accepted and overwrites the counter of the next cell')
bug('c03_stored','C03','Computer.hpp',[('''				// 無効粒子は格納しない
				if(particles[i].TYPE() != Particle::Type::Disabled)
				{
					// 格納に失敗''','''				{
					// 格納に失敗''')],INC+r'''
int main()
{
	const auto e = Env();
	Grid g(e.NeighborLength, e.L_0, e.MinX, e.MaxX);
	const auto cap = g.MaxParticles();
	std::vector<Particle> ps;
	for (std::size_t i = 0; i < cap; i++) ps.push_back(P(DU, 1.0 + 0.001 * i, 1.0));
	ps.push_back(P(DI, 1.0, 1.01));
	bool thrown = false;
	auto c = MakeFixed(e, ps);
	try { c.ForwardTime(1e-4); } catch (const std::exception& ex) { std::puts(ex.what()); thrown = true; }
	CHECK(!thrown);
	return bad;
}
''','a grid cell filled to its capacity by live particles with a disabled particle lying in the same cell','disabled particles are filed in the search grid and use up cell capacity, so that a step fails because of a particle that must not matter')
bug('c14_nan','C14','Computer.hpp',[('isConverged = (residual < residual0);','isConverged = !(residual >= residual0);')],INC+r'''
int main()
{
	// a singular system: A = 0, b != 0
	auto c = MakeFixed(Env(), { P(FL, 1, 1), P(FL, 2, 2) });
	c.ppe.A.resize(2, 2, false);
	Comp::Ppe::TempMatrix t(2, 2);
	t(0, 0) = 0; t(1, 1) = 0;
	viennacl::copy(t, c.ppe.A);
	for (auto v : { &c.ppe.x, &c.ppe.b, &c.ppe.cg.r, &c.ppe.cg.p, &c.ppe.cg.Ap }) v->resize(2, false);
	for (int i = 0; i < 2; i++) { c.ppe.x(i) = 0; c.ppe.b(i) = 1 + i; }
	bool thrown = false;
	try { c.SolvePressurePoissonEquation(); } catch (const std::exception&) { thrown = true; }
	CHECK(thrown);
	return bad;
}
''','a singular pressure system, on which the iteration divides by zero and produces NaN','a NaN residual counts as converged, so the solver returns NaN pressures as a solution')
bug('c07_norm','C07','Computer.hpp',[('const auto maxU = ublas::norm_2(maxUParticle.U());','const auto maxU = ublas::norm_inf(maxUParticle.U());')],INC+r'''
int main()
{
	auto c = MakeFixed(Env(), { P(FL, 1, 1, 3, 4), P(WA, 2, 2, 1, 0) });
	const auto dt = c.DetermineDt();
	CHECK(dt > 0 && dt * 5 <= c.GetEnvironment().MaxDx * (1 + 1e-9));
	return bad;
}
''','a fastest particle that moves diagonally','the time step only limits the largest velocity component, so a diagonally moving particle travels farther than the largest permitted displacement')
bug('c13_clear','C13','Computer.hpp',[('''			A.clear();

			// 全粒子で''','''			if (A.nnz() > 100 * n)
			{
				A.clear();
			}

			// 全粒子で''')],INC+r'''
int main()
{
	auto c = MakeFixed(Env(), { P(FL, 1, 1), P(FL, 1.1, 1), P(FL, 1, 1.1) });
	c.environment.Dt() = 1e-3;
	auto set = [&] { c.SearchNeighbor(); c.ComputeNeighborDensities(); c.ComputeErrorCorrection(); c.SetPressurePoissonEquation(); };
	set();
	CHECK(c.ppe.tempA(0, 1) > 0);
	// the second particle moves out of reach
	c.particles[1].X()[AXIS_X] = 2;
	set();
	CHECK(c.ppe.tempA(0, 1) == 0);
	CHECK(c.ppe.tempA(1, 0) == 0);
	return bad;
}
''','two pressure systems set up by the same computation, between which a pair of particles leaves the influence radius','coefficients of pairs that are no longer neighbours stay in the matrix')
bug('c16_wall','C16','Computer.hpp',[("""							const auto dx = x - thisX;
							const auto r2 = ublas::inner_prod(dx, dx);
							const Vector result = ((p + thisP) / r2 * Particle::W(std::sqrt(r2), r_e)) * dx;""","""							const auto dx = x - thisX;
							const auto r2 = ublas::inner_prod(dx, dx);
							const auto p_ij = (type == Particle::Type::Wall) ? std::max(p, thisP) + thisP : p + thisP;
							const Vector result = (p_ij / r2 * Particle::W(std::sqrt(r2), r_e)) * dx;""")],INC+r"""
int main()
{
	auto run = [](double pw)
	{
		auto c = MakeFixed(Env(), { P(FL, 1, 1, 0, 0, 1000), P(WA, 1.1, 1, 0, 0, pw) });
		c.environment.Dt() = 1e-3;
		c.SearchNeighbor();
		c.ComputeNeighborDensities();
		c.ModifyByPressureGradient();
		return c.Particles()[0].U()[0];
	};
	// the change is linear in the wall's pressure
	CHECK(Near(run(0) + run(2000), 2 * run(1000), 1e-12));
	return bad;
}
""",'a fluid particle next to a wall particle that is under lower pressure than the fluid','a wall particle at low pressure repels as if it had the pressure of the fluid particle')
bug('c18_savex','C18','Computer.hpp',[('''				if((particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))
				{
					originalX[i] = particle.X();''','''				if(particle.TYPE() == Particle::Type::IncompressibleNewton)
				{
					originalX[i] = particle.X();''')],INC+r'''
int main()
{
	Opt o; o.g = 1e-9; o.nu = 0;
	// a fluid particle too close to a wall particle straight above it
	auto c = MakeFixed(Env(o), { P(FL, 1, 1), P(WA, 1, 1.05) });
	c.environment.Dt() = 1e-3;
	c.SearchNeighbor();
	c.ComputeNeighborDensities();
	c.SaveX();
	c.DynamicStabilize();
	CHECK(std::abs(c.Particles()[0].U()[0]) < 1e-9);
	CHECK(c.Particles()[0].U()[1] < 0);
	return bad;
}
''','a fluid particle that is too close to a wall particle','the position before the correction is not saved for walls, so the repulsion from a wall points in a wrong direction')
bug('c10_time','C10','Computer.hpp',[('''			// 時間を進める
			environment.SetNextT();

			// 近傍粒子探索
''','''			// 近傍粒子探索
'''),('''			// DS法による人工斥力の追加
			DynamicStabilize();
#endif
		}''','''			// DS法による人工斥力の追加
			DynamicStabilize();
#endif

			// 時間を進める
			environment.SetNextT();
		}''')],INC+r'''
int main()
{
	std::vector<double> ts;
	auto c = Make(Env(), [&](std::size_t, double t, double) { ts.push_back(t); return CreateVector(1 + t, 1); });
	c.AddParticles(std::vector<Particle>{ P(WA, 1, 1) });
	c.ForwardTime(1e-3);
	CHECK(Near(c.Particles()[0].X()[0], 1.001));
	c.ForwardTime(2e-3);
	CHECK(Near(c.Particles()[0].X()[0], 1.003));
	CHECK(Near(c.GetEnvironment().T(), 3e-3));
	return bad;
}
''','walls with a time-dependent prescribed motion','walls are placed at the time before the step instead of the current simulated time')
bug('c12_order','C12','Computer.hpp',[('''#ifdef MPS_ECS
			ComputeErrorCorrection();
#endif

			// 第一段階の計算
			ComputeExplicitForces();
''','''			// 第一段階の計算
			ComputeExplicitForces();

#ifdef MPS_ECS
			ComputeErrorCorrection();
#endif
''')],INC+r'''
int main()
{
	// dense cluster moving apart: the correction has to use the velocities from before gravity and wall motion
	std::vector<Particle> ps;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ps.push_back(P(i == 1 && j == 1 ? FL : WA, 1 + 0.06 * i, 1 + 0.06 * j, -i * 0.1, -j * 0.2));
	auto a = MakeFixed(Env(), ps, 1e3), b = MakeFixed(Env(), ps, 1e3);
	b.environment.Dt() = 1e-3; b.environment.SetNextT();
	b.SearchNeighbor(); b.ComputeNeighborDensities(); b.ComputeErrorCorrection();
	const auto ecs = b.ecs;
	try { a.ForwardTime(1e-3); } catch (const std::exception& ex) { std::puts(ex.what()); }
	for (std::size_t i = 0; i < ps.size(); i++) CHECK(Near(a.ecs[i], ecs[i]));
	CHECK(std::abs(ecs[4]) > 1e-3);
	return bad;
}
''','a whole step with an initial density error and velocities that the first stage changes','the error-correction term is evaluated after the first stage instead of at the start of the step')
bug('c08_drift','C08','Main.cpp',[('nextOutputT += condition.OutputInterval;','nextOutputT = tComputer + condition.OutputInterval;')],r'''
#define main app_main
#define System System_
#include "Main.cpp"
#undef main
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <unistd.h>
// the time step is capped by the free fall limit, which does not divide the output interval
int main()
{
	std::ofstream("in.xml") << R"(<?xml version="1.0" encoding="utf-8"?>
<openmps><condition><startTime value="0"/><endTime value="1"/><outputInterval value="0.1"/><eps value="1e-5"/></condition>
<environment><l_0 value="0.1"/><minStepCountPerOutput value="1"/><courant value="0.1"/><g value="9.8"/><rho value="1000"/><nu value="0"/><r_eByl_0 value="2.4"/>
<minX value="0"/><minZ value="0"/><maxX value="3"/><maxZ value="3"/></environment>
<particles type="csv">Type, x, z, u, w, p, n
1,1,1,0,0,0,0
</particles></openmps>)";
	std::stringstream log;
	auto* old = std::cout.rdbuf(log.rdbuf());
	const char* argv[] = { "x", "in.xml" };
	const int rc = app_main(2, argv);
	std::cout.rdbuf(old);
	// the k-th output has to be written at the first step at or after 0.1 k
	int bad = rc != 0, seen = 0;
	std::string line;
	const double dt = std::sqrt(2 * 0.1 * 0.1 / 9.8);
	while (std::getline(log, line))
	{
		const auto p = line.find("t=");
		if (line.empty() || line[0] != '#' || p == std::string::npos) continue;
		const double t = std::atof(line.c_str() + p + 2);
		const int k = std::atoi(line.c_str() + 1);
		if (k > 0 && !(t >= 0.1 * k - 1e-3 && t < 0.1 * k + dt + 1e-3)) { std::printf("output %d at %g\n", k, t); bad = 1; }
		seen++;
	}
	if (seen != 11) { std::printf("%d outputs\n", seen); bad = 1; }
	return bad;
}
''','a time step that does not divide the output interval, over several outputs','each output waits a full interval after the previous one, so output times drift behind the schedule')
bug('c20_tab','C20','Main.cpp',[("return (c == ' ') || (c == '\\t');","return (c == ' ');")],r'''
#define main app_main
#include "Main.cpp"
#undef main
int main()
{
	std::cout.setstate(std::ios::failbit);
	int bad = 0;
	try
	{
		const auto ps = InputFromCsv("Type,\tx, z, u, w,\tp, n\n1, 1,2,3,4,5,6\n2,\t7,8,9,10,11,12\n");
		if (ps.size() != 2 || ps[0].X()[0] != 1 || ps[0].N() != 6 || ps[1].P() != 11) bad = 1;
	}
	catch (const std::exception& e) { std::fprintf(stderr, "%s\n", e.what()); bad = 1; }
	return bad;
}
''','a particle table with tabs as blanks','tabs are no longer ignored')
bug('c21_append','C21','Main.cpp',[('std::ofstream output(filename);','std::ofstream output(filename, std::ios::app);')],r'''
#define main app_main
#include "Main.cpp"
#undef main
#include <sys/stat.h>
int main()
{
	mkdir("result", 0700);
	OpenMps::Environment e(0.01, 0.1, 9.8, 1000, 0, 2.4, 0.1, 0, 0, 3, 3);
	auto w = [](auto, auto, auto) { return OpenMps::CreateVector(0, 0); };
	auto p = [](auto, auto) {};
	auto c = OpenMps::CreateComputer(1e-5, e, w, p);
	c.AddParticles(std::vector<OpenMps::Particle>(2, OpenMps::Particle(OpenMps::Particle::Type::Wall)));
	OutputToCsv(c, 3);
	OutputToCsv(c, 3);
	std::ifstream f("result/particles_00003.csv");
	std::string line;
	int n = 0;
	while (std::getline(f, line)) n++;
	return n == 3 ? 0 : 1;
}
''','a result file of an earlier run in the result directory','the new table is appended to the old one, so the file holds two headers and stale lines')
bug('c22_bounds','C22','Main.cpp',[('''			minX, minZ,
			maxX, maxZ
#endif''','''			minX, minZ,
			maxZ, maxX
#endif''')],r'''
#define main app_main
#include "Main.cpp"
#undef main
int main()
{
	std::stringstream s(R"(<?xml version="1.0"?><openmps>
<environment><l_0 value="0.1"/><minStepCountPerOutput value="4"/><courant value="0.1"/><g value="9.8"/><rho value="1000"/><nu value="0"/><r_eByl_0 value="2.4"/>
<minX value="0"/><minZ value="1"/><maxX value="3"/><maxZ value="5"/></environment></openmps>)");
	boost::property_tree::ptree xml;
	boost::property_tree::read_xml(s, xml);
	auto&& e = LoadEnvironment(xml, 0.01);
	return e.MinX[0] == 0 && e.MinX[1] == 1 && e.MaxX[0] == 3 && e.MaxX[1] == 5 ? 0 : 1;
}
''','a domain that is not square','the upper bounds of the domain are exchanged')
bug('c24_insert','C24','Computer.hpp',[('particles.insert(particles.end(),','particles.insert(particles.begin(),')],INC+r'''
int main()
{
	auto c = MakeFixed(Env(), { P(FL, 1, 1), P(WA, 2, 2) });
	c.AddParticles(std::vector<Particle>{ P(DU, 2.5, 2.5) });
	CHECK(c.Particles()[0].TYPE() == FL && c.Particles()[1].TYPE() == WA && c.Particles()[2].TYPE() == DU);
	return bad;
}
''','particles that are added in more than one batch','a later batch is put before the earlier ones, so every particle number changes')
bug('c26_velocity','C26','Computer.hpp',[('						p_spp.U() = particles[i].U();\n','')],INC+r'''
int main()
{
	// two fluid particles moving together: no viscous force, whatever the virtual surface particle is
	Opt o; o.nu = 1; o.g = 1e-12;
	auto c = MakeFixed(Env(o), { P(FL, 1, 1, 5, 0), P(FL, 1.1, 1, 5, 0) });
	c.environment.Dt() = 1e-3;
	c.SearchNeighbor();
	c.ComputeNeighborDensities();
	c.ComputeExplicitForces();
	CHECK(Near(c.Particles()[0].U()[0], 5));
	CHECK(Near(c.Particles()[1].U()[0], 5));
	return bad;
}
''','a free-surface particle that moves and has an unbalanced neighbourhood','the virtual surface particle is at rest instead of moving with its particle and brakes it')
bug('c17_eps','C17','Computer.hpp',[('''						c, d);

					if (det == 0)''','''						c, d);

					if (std::abs(det) < std::numeric_limits<float>::epsilon())''')],INC+r'''
int main()
{
	auto m = Detail::InvertMatrix(Detail::CreateMatrix(1e-4, 0.0, 0.0, 1e-4), 2.0);
	CHECK(Near(m(0, 0), 1e4) && Near(m(1, 1), 1e4));
	return bad;
}
''','a moment matrix with a small determinant','matrices with a small determinant are treated as singular','-DMPS_GC')
bug('c05_range','C05','Environment.hpp',[('const auto range = static_cast<int>(std::ceil(r_eByl_0));','const auto range = static_cast<int>(std::ceil(r_eByl_0 - 0.25));')],INC+r'''
int main()
{
	Opt o; o.re = 2.2; o.l0 = 1; o.maxX = o.maxZ = 20;
	const auto e = Env(o);
	double n0 = 0;
	for (int i = -9; i <= 9; i++) for (int j = -9; j <= 9; j++) { const double r = std::hypot(i, j); if (r > 0 && r < 2.2) n0 += 2.2 / r - 1; }
	CHECK(Near(e.N0(), n0));
	return bad;
}
''','an influence ratio slightly above a whole number','the outermost lattice row is left out of the reference density for some influence ratios')
bug('c01_corner','C01','Grid.hpp',[('for(index = neighborIndex; !isValid && (index + 1 < LAST_NEIGHBOR); index++)','for(index = neighborIndex; !isValid && (index + 1 < LAST_NEIGHBOR - (nx == nz ? 0 : 1)); index++)')],INC+r'''
int main()
{
	// neighbours across a cell corner
	Opt o; o.maxX = 5;
	const auto e = Env(o);
	const double b = e.NeighborLength;
	auto c = MakeFixed(e, { P(FL, 3 * b - 0.01, 3 * b - 0.01), P(FL, 3 * b + 0.01, 3 * b + 0.01) });
	c.SearchNeighbor();
	CHECK(c.NeighborCount(0) == 1 && c.NeighborCount(1) == 1);
	return bad;
}
''','a pair of neighbours in diagonally adjacent cells, nothing in between, in a domain that is not square','the last block around a particle is not searched')
bug('c15_dummy','C15','Computer.hpp',[('''				// ダミー粒子と無効粒子は除く
				if ((particles[i].TYPE() != Particle::Type::Dummy) && (particles[i].TYPE() != Particle::Type::Disabled))
				{
					// 負圧は圧力0''','''				// 無効粒子は除く
				if (particles[i].TYPE() != Particle::Type::Disabled)
				{
					// 負圧は圧力0''')],INC+r'''
int main()
{
	auto c = MakeFixed(Env(), { P(FL, 1, 1), P(DU, 2, 2, 0, 0, 123) });
	c.ForwardTime(1e-3);
	CHECK(c.Particles()[1].P() == 123);
	return bad;
}
''','a dummy particle that carries a pressure','the pressure of dummy particles is overwritten')
bug('c19_shared','C19','Computer.hpp',[('''		// 速度修正量
		std::vector<Vector> du;
''','''		// 速度修正量
		std::vector<Vector> du;

		// 作業用
		double minN = 0;
'''),('''					nWithoutSpp[i] = thisN;
					particle.N() = std::max(thisN, n0); // SPPによって粒子数密度が足りない時には充填される''','''					minN = thisN;
					nWithoutSpp[i] = minN;
					particle.N() = std::max(minN, n0); // SPPによって粒子数密度が足りない時には充填される''')],INC+r'''
#include <omp.h>
int main()
{
	std::vector<Particle> ps;
	for (int i = 0; i < 120; i++) for (int j = 0; j < 120; j++) ps.push_back(P(FL, 0.2 + 0.1 * i, 0.2 + 0.1 * j + 0.02 * ((i * 7 + j * 3) % 5)));
	Opt o; o.maxX = o.maxZ = 13;
	auto c = MakeFixed(Env(o), ps);
	omp_set_num_threads(1);
	c.SearchNeighbor();
	c.ComputeNeighborDensities();
	std::vector<double> n;
	for (auto& p : c.Particles()) n.push_back(p.N());
	auto m = c.nWithoutSpp;
	omp_set_num_threads(8);
	for (int k = 0; k < 300 && !bad; k++)
	{
		c.ComputeNeighborDensities();
		for (std::size_t i = 0; i < n.size(); i++) if (c.Particles()[i].N() != n[i] || c.nWithoutSpp[i] != m[i]) { std::printf("differs\n"); bad = 1; break; }
	}
	return bad;
}
''','two threads computing densities at the same time','all iterations of the density loop share one member variable: a data race')
bug('c23_density','C23','Computer.hpp',[('''			// 粒子数密度を計算する
			ComputeNeighborDensities();

#ifdef MPS_DS''','''#ifndef MPS_SPP
			// 粒子数密度を計算する
			ComputeNeighborDensities();
#endif

#ifdef MPS_DS''')],INC+r'''
int main()
{
	// a dense moving wall: after the step the densities belong to the moved positions
	auto c = Make(Env(), [](std::size_t i, double t, double) { return CreateVector(1 + 0.05 * i + 10 * t * i, 1); });
	std::vector<Particle> ps;
	for (int i = 0; i < 4; i++) ps.push_back(P(WA, 1 + 0.005 * i, 1));
	c.AddParticles(std::move(ps));
	try { c.ForwardTime(1e-3); } catch (const std::exception&) {}
	double n = 0;
	for (int i = 1; i < 4; i++) n += 0.24 / (0.06 * i) - 1;
	CHECK(Near(c.Particles()[0].N(), std::max(n, c.GetEnvironment().N0())));
	return bad;
}
''','a whole step in which particles move noticeably in the first stage','the densities are not renewed at the positions after the first stage')
bug('c09_wallvis','C09','Computer.hpp',[('''						// ダミー粒子以外
						if(type != Particle::Type::Dummy)
						{
							const auto r = R(thisX, x);
#ifdef MPS_HL
							// HL法（高精度ラプラシアン）: ν(5-D)r_e/n0 (u_j - u_i) / r^3''','''						// 流体粒子のみ
						if(type == Particle::Type::IncompressibleNewton)
						{
							const auto r = R(thisX, x);
#ifdef MPS_HL
							// HL法（高精度ラプラシアン）: ν(5-D)r_e/n0 (u_j - u_i) / r^3''')],INC+r'''
int main()
{
	Opt o; o.nu = 1; o.g = 1e-12;
	auto c = MakeFixed(Env(o), { P(FL, 1, 1, 5, 0), P(WA, 1, 1.1, 0, 0) });
	c.environment.Dt() = 1e-5;
	c.SearchNeighbor();
	c.ComputeNeighborDensities();
	c.ComputeExplicitForces();
	CHECK(c.Particles()[0].U()[0] < 5);
	return bad;
}
''','a fluid particle sliding along a wall','walls exert no viscous force')
bug('c06_isolated','C06','Computer.hpp',[('particle.N() = std::max(thisN, n0);','particle.N() = (NeighborCount(i) > 0) ? std::max(thisN, n0) : thisN;')],INC+r'''
int main()
{
	// two wall particles and a droplet of one fluid particle far from everything
	auto c = MakeFixed(Env(), { P(WA, 1, 1), P(WA, 1.1, 1), P(FL, 2.5, 2.5) });
	c.ForwardTime(1e-4);
	const double n0 = c.GetEnvironment().N0();
	CHECK(Near(c.Particles()[0].N(), n0));
	CHECK(Near(c.Particles()[2].N(), n0));
	return bad;
}
''','a particle with no neighbour at all within the search radius (a splash droplet)','the density of an isolated particle is 0 instead of the reference density that virtual surface particles fill up to')
bug('c11_compressed','C11','Computer.hpp',[('[&thisX = particle.X(), &thisU = particle.U(), n0, r_e,\n#ifndef MPS_HL\n						lambda,\n#endif\n						nu]','[&thisX = particle.X(), &thisU = particle.U(), n0 = std::max(n0, particle.N()), r_e,\n#ifndef MPS_HL\n						lambda,\n#endif\n						nu]')],INC+r'''
int main()
{
	// a compressed cluster at the left, a single particle at its right edge: the densities differ
	Opt o; o.g = 0.001;
	std::vector<Particle> ps;
	for (int i = 0; i < 4; i++) for (int k = 0; k < 5; k++) ps.push_back(P(FL, 1 + 0.07 * i, 1 + 0.07 * k));
	ps.push_back(P(FL, 1.42, 1.14, 0, 1));
	auto c = MakeFixed(Env(o), ps);
	c.environment.Dt() = 1e-3; c.environment.SetNextT();
	c.SearchNeighbor(); c.ComputeNeighborDensities();
	c.ComputeExplicitForces();
	double mx = 0, mz = 0;
	for (auto& q : c.Particles()) { mx += q.U()[0]; mz += q.U()[AXIS_Z]; }
	CHECK(Near(mx, 0));
	CHECK(Near(mz, 1 - 1e-3 * 0.001 * 21));
	return bad;
}
''','two particles within the influence radius whose densities differ and exceed the reference density','the viscous coefficient uses the local density of the receiving particle, so that action and reaction differ')
bug('c25_first','C25','Computer.hpp',[('''					const auto error = (thisN - n0) / n0;
					ecs[i]''','''					const auto error = (thisN - n0) / n0;
					ecs[(i == 0) ? 0 : ((particles[i - 1].TYPE() == Particle::Type::Disabled) ? i - 1 : i)]''')],INC+r'''
int main()
{
	// the same state in two orders of the list
	Opt o; o.re = 1.5; o.g = 0.001;
	std::vector<Particle> a, b;
	for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) a.push_back(P(FL, 1 + 0.06 * i + 0.003 * k, 1 + 0.06 * k, 0.5 - 0.25 * i, 0.1 * k));
	b = a;
	a.insert(a.begin() + 5, P(DI, 2, 2));
	b.push_back(P(DI, 2, 2));
	auto ca = MakeFixed(Env(o), a), cb = MakeFixed(Env(o), b);
	for (auto* c : { &ca, &cb })
	{
		c->environment.Dt() = 1e-4; c->environment.SetNextT();
		c->SearchNeighbor(); c->ComputeNeighborDensities(); c->ComputeErrorCorrection(); c->ComputeExplicitForces();
		c->ComputeNeighborDensities(); c->SetPressurePoissonEquation();
	}
	for (std::size_t i = 0; i < 16; i++)
	{
		const double p = ca.ppe.b(i < 5 ? i : i + 1), q = cb.ppe.b(i);
		CHECK(Near(p, q, 1e-6));
	}
	return bad;
}
''','a live particle that follows a disabled one in the list, with a density above the reference','the error correction is stored under the number of the disabled predecessor, so the result depends on the order of the particle list')
