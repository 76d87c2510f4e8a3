// C21: a result table reports every particle's own state under the right column.
#include "app.hpp"
static int Column(const std::vector<std::string>& h, const std::string& name)
{
	int at = -1;
	for (std::size_t i = 0; i < h.size(); i++) { if (h[i] == name) { vp_check(at < 0, "each column once"); at = static_cast<int>(i); } }
	vp_check(at >= 0, "column present");
	return at;
}
extern "C" void vp_main()
{
	EnvArgs ea;
	ea.minX = ea.minZ = ea.minY = -20; ea.maxX = ea.maxZ = ea.maxY = 20;
	auto c = MakeComputer(ea);
	const int n = vp_int("n", 0, NP);
	std::vector<Particle> ps;
	for (int i = 0; i < n; i++)
	{
		ps.push_back(MakeParticle(TypeOf(vp_inti("type", i, 0, 3)), vp_reali("x", i, -20, 20), vp_reali("z", i, -20, 20), vp_reali("u", i, -9, 9), vp_reali("w", i, -9, 9),
			vp_reali("p", i, -5, 1000), vp_reali("n", i, 0, 9), vp_reali("y", i, -20, 20), vp_reali("v", i, -9, 9)));
	}
	auto qs = ps;
	c.AddParticles(std::move(qs));
	// the file may be there already, from an earlier run
	static const std::size_t NUMBERS[] = { 0, 7, 12345, 123456 };
	static const char* const FILES[] = { "result/particles_00000.csv", "result/particles_00007.csv", "result/particles_12345.csv", "result/particles_123456.csv" };
	const int k = vp_int("number", 0, 3);
	if (vp_int("stale", 0, 1) != 0) { Files().push_back({ FILES[k], "Type, x, z, u, w, p, n\n9, 9, 9, 9, 9, 9, 9\n" }); }
	const long count = static_cast<long>(OutputToCsv(c, NUMBERS[k]));

	vp_check(Files().size() == 1, "one file");
	vp_check(Files()[0].name == FILES[k], "file name");
	const auto lines = Lines(Files()[0].text);
	vp_check(static_cast<int>(lines.size()) == n + 1, "header and one line per particle");
	if (static_cast<int>(lines.size()) != n + 1) { return; }
	const auto header = Cells(lines[0]);
#ifdef DIM3
	vp_check(header.size() == 9, "columns");
	const int X[] = { Column(header, "x"), Column(header, "y"), Column(header, "z") }, U[] = { Column(header, "u"), Column(header, "v"), Column(header, "w") };
#else
	vp_check(header.size() == 7, "columns");
	const int X[] = { Column(header, "x"), Column(header, "z") }, U[] = { Column(header, "u"), Column(header, "w") };
#endif
	const int TY = Column(header, "Type"), P = Column(header, "p"), N = Column(header, "n");
	long live = 0;
	bool ok = true;
	for (int i = 0; i < n; i++)
	{
		const auto cells = Cells(lines[i + 1]);
		vp_check(cells.size() == header.size(), "a value per column");
		if (cells.size() != header.size()) { return; }
		const auto& p = ps[i];
		vp_eq(CellValue(cells[TY], ok), static_cast<int>(p.TYPE()), "type");
		for (std::size_t d = 0; d < DIM; d++)
		{
			vp_eq(CellValue(cells[X[d]], ok), p.X()[d], "position");
			vp_eq(CellValue(cells[U[d]], ok), p.U()[d], "velocity");
		}
		vp_eq(CellValue(cells[P], ok), p.P(), "pressure");
		vp_eq(CellValue(cells[N], ok), p.N(), "density");
		if (p.TYPE() != DISABLED) { live++; }
	}
	vp_check(ok, "numbers");
	vp_check(count == live, "reported count");
	vp_outi("count", count);
}
