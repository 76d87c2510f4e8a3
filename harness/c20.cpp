// C20: particle tables are read by column name; malformed tables are rejected.
#include "app.hpp"
static const char* const NAMES[] = { "Type", "x",
#ifdef DIM3
	"y",
#endif
	"z", "u",
#ifdef DIM3
	"v",
#endif
	"w", "p", "n" };
constexpr int COLS = sizeof NAMES/sizeof NAMES[0];
constexpr int NX = 1, NU = 1 + DIM, NPR = 1 + 2*DIM, NN = 2 + 2*DIM;

static int order[COLS];		// order[c]: the quantity in column c
struct Row { int type; double v[COLS]; };
static std::string Join(const std::vector<std::string>& c, const int blanks)
{
	static const char* const BEFORE[] = { "", " ", "\t", "  \t ", "", " " };
	static const char* const AFTER[] = { "", "", " ", "\t", " \t", " " };
	std::string l;
	for (std::size_t i = 0; i < c.size(); i++)
	{
		if (i > 0) { l += ","; }
		l += BEFORE[blanks] + c[i] + AFTER[blanks];
	}
	return l;
}
static std::vector<std::string> Header()
{
	std::vector<std::string> c;
	for (int i = 0; i < COLS; i++) { c.push_back(NAMES[order[i]]); }
	return c;
}
static std::vector<std::string> Cells(const Row& r)
{
	std::vector<std::string> c;
	for (int i = 0; i < COLS; i++) { c.push_back(order[i] == 0 ? std::to_string(r.type) : Num(r.v[order[i]])); }
	return c;
}
static Row MakeRow(const int i, const int type)
{
	Row r;
	r.type = type;
	for (int k = 1; k < COLS; k++) { r.v[k] = vp_reali("v", i*16 + k, -1000, 1000); }
	return r;
}
static void Rotate(const int by, const bool reverse)
{
	for (int i = 0; i < COLS; i++) { const int k = (i + by) % COLS; order[i] = reverse ? COLS - 1 - k : k; }
}
static auto Read(const std::string& text)
{
	boost::property_tree::ptree xml;
	xml.put("openmps.particles", text);
	xml.put("openmps.particles.<xmlattr>.type", "csv");
	return LoadParticles(xml);
}
template<typename P> static void Same(const P& p, const Row& r)
{
	vp_check(static_cast<int>(p.TYPE()) == r.type, "type");
	for (std::size_t d = 0; d < DIM; d++)
	{
		vp_eq(p.X()[d], r.v[NX + d], "position");
		vp_eq(p.U()[d], r.v[NU + d], "velocity");
	}
	vp_eq(p.P(), r.v[NPR], "pressure");
	vp_eq(p.N(), r.v[NN], "density");
}
static void Accepted(const std::string& text, const std::vector<Row>& rows)
{
	bool ok = true;
	try
	{
		const auto p = Read(text);
		vp_check(p.size() == rows.size(), "one particle per line");
		if (p.size() == rows.size()) { for (std::size_t i = 0; i < rows.size(); i++) { Same(p[i], rows[i]); } }
		vp_outi("size", static_cast<long>(p.size()));
	}
	catch (const std::exception&) { ok = false; }
	vp_check(ok, "well-formed table is accepted");
}
static void Rejected(const std::string& text)
{
	bool thrown = false;
	try { Read(text); }
	catch (const std::exception&) { thrown = true; }
	vp_check(thrown, "malformed table is rejected");
	vp_outi("thrown", thrown);
}

extern "C" void vp_main()
{
	const std::string NL = "\n";
#if SCEN == 0
	// any order of the columns
#ifdef ALLORDERS
	int used = 0;
	for (int i = 0; i < COLS; i++)
	{
		const int k = vp_inti("column", i, 0, COLS - 1);
		if (used & (1 << k)) { return; }
		used |= 1 << k;
		order[i] = k;
	}
#else
	Rotate(vp_int("rotation", 0, COLS - 1), vp_int("reverse", 0, 1) != 0);
	const int s = vp_int("swap", 0, COLS - 1);
	if (s > 0) { std::swap(order[0], order[s]); }
#endif
	const std::vector<Row> rows{ MakeRow(0, vp_int("type", 0, 3)), MakeRow(1, 1) };
	Accepted(Join(Header(), 0) + NL + Join(Cells(rows[0]), 0) + NL + Join(Cells(rows[1]), 0) + NL, rows);
#endif
#if SCEN == 1
	// blanks and empty lines anywhere
	const int hb = vp_int("header blanks", 0, 5), rb = vp_int("row blanks", 0, 5);
	const int gap = vp_int("gap", 0, 7);	// where the empty lines are
	Rotate((hb + gap) % COLS, rb % 2 != 0);
	const std::string e = vp_int("blank line", 0, 1) ? "  \t" : "";
	const std::vector<Row> rows{ MakeRow(0, 2), MakeRow(1, 0), MakeRow(2, 3) };
	std::string t;
	if (gap == 1) { t += NL; }
	if (gap == 2) { t += NL + NL + NL; }
	t += Join(Header(), hb) + NL;
	if (gap == 3) { t += e + NL; }
	t += Join(Cells(rows[0]), rb) + NL;
	if (gap == 4) { t += e + NL + NL; }
	t += Join(Cells(rows[1]), hb) + NL;
	if (gap == 5) { t += NL + e + NL + e + NL; }
	t += Join(Cells(rows[2]), rb);
	if (gap == 6) { t += NL + e; }
	if (gap == 7) { t += NL + NL + e + NL + NL; }
	Accepted(t, rows);
#endif
#if SCEN == 2
	// no lines, one line
	Rotate(vp_int("rotation", 0, COLS - 1), false);
	const std::vector<Row> rows{ MakeRow(0, vp_int("type", 0, 3)) };
	switch (vp_int("lines", 0, 3))
	{
	case 0: Accepted(Join(Header(), 0), {}); break;
	case 1: Accepted(NL + Join(Header(), 1) + NL + NL, {}); break;
	case 2: Accepted(Join(Header(), 0) + NL + Join(Cells(rows[0]), 0), rows); break;
	default: Accepted(NL + Join(Header(), 0) + NL + NL + Join(Cells(rows[0]), 0) + NL, rows); break;
	}
#endif
#if SCEN == 3
	// malformed headers
	Rotate(vp_int("rotation", 0, COLS - 1), vp_int("reverse", 0, 1) != 0);
	const Row row = MakeRow(0, 0);
	auto h = Header();
	auto c = Cells(row);
	const int at = vp_int("at", 0, COLS - 1);
	switch (vp_int("how", 0, 8))
	{
	case 0: h.erase(h.begin() + at); break;								// missing, row has a value for it
	case 1: h.erase(h.begin() + at); c.erase(c.begin() + at); break;	// missing
	case 2: h[at] = "q"; break;											// unknown instead
	case 3: h.insert(h.begin() + at, "rho"); c.insert(c.begin() + at, "1"); break;	// unknown in addition
	case 4: h[at] += "x"; break;
	case 5: h[at] = ""; break;
	case 6: h[at] = h[(at + 1) % COLS]; break;							// twice the same, one missing
	case 7: h.resize(at); break;										// truncated
	default: h[at][0] = static_cast<char>(h[at][0] ^ 32); break;		// upper/lower case
	}
	if (h.empty()) { return; }
	Rejected(Join(h, 0) + NL + Join(c, 0) + NL);
#endif
#if SCEN == 4
	// no header
	Rotate(0, false);
	const Row row = MakeRow(0, vp_int("type", 0, 3));
	switch (vp_int("how", 0, 7))
	{
	case 0: Rejected(""); break;
	case 1: Rejected(NL); break;
	case 2: Rejected(NL + NL + NL); break;
	case 3: Rejected("  "); break;
	case 4: Rejected(" \t" + NL + "  " + NL); break;
	case 5: Rejected(Join(Cells(row), 0) + NL); break;
	case 6: Rejected(Join(Cells(row), 0) + NL + Join(Header(), 0) + NL); break;
	default: Rejected(NL + NL + Join(Cells(row), 2) + NL + Join(Cells(row), 0)); break;
	}
#endif
#if SCEN == 5
	// lines with too few values, of every length, at any place in the table; lines with more values do no harm
	Rotate(vp_int("rotation", 0, COLS - 1), vp_int("reverse", 0, 1) != 0);
	const Row row = MakeRow(0, 1), bad = MakeRow(1, 2);
	auto c = Cells(bad);
	const int len = vp_int("length", 1, COLS + 3);
	for (int i = COLS; i < len; i++) { c.push_back("7"); }
	c.resize(len);
	const int place = vp_int("place", 0, 2);
	std::string t = Join(Header(), 0) + NL;
	if (place > 0) { t += Join(Cells(row), 0) + NL; }
	t += Join(c, 0);
	if (place < 2) { t += NL + Join(Cells(row), 0) + NL; }
	if (len < COLS) { Rejected(t); }
	else if (len > COLS) { try { Read(t); } catch (const std::exception&) {} }
	else { Read(t); }
	// a value that is not there, or no number at all
	c = Cells(bad);
	c[len % COLS] = place == 0 ? "" : (place == 1 ? "  " : "abc");
	Rejected(Join(Header(), 0) + NL + Join(Cells(row), 0) + NL + Join(c, 0) + NL);
#endif
#if SCEN == 6
	// another kind of table
	Rotate(0, false);
	boost::property_tree::ptree xml;
	xml.put("openmps.particles", Join(Header(), 0) + NL);
	static const char* const KINDS[] = { "", "CSV", "csv ", "tsv", "xml" };
	xml.put("openmps.particles.<xmlattr>.type", KINDS[vp_int("kind", 0, 4)]);
	bool thrown = false;
	try { LoadParticles(xml); }
	catch (const std::exception&) { thrown = true; }
	vp_check(thrown, "unknown kind of table is rejected");
#endif
}
