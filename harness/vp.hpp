// Harness interface. Symbolic builds leave these functions to the symbolic machine; native builds (VP_NATIVE) read the
// inputs of a counterexample from a file and report failing assertions, so that every violation is replayed on the real code.
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>

extern "C"
{
	double vp_real(const char* name, double lo, double hi);        // any real in [lo, hi]; infinite bounds allowed
	double vp_reali(const char* name, int i, double lo, double hi);
	int vp_int(const char* name, int lo, int hi);                  // any integer in [lo, hi], explored one by one
	int vp_inti(const char* name, int i, int lo, int hi);
	double vp_rat(long a, long b);                                 // a/b
	double vp_sqrt(double a);                                      // exact square root
	double vp_num(double a);                                       // a, hidden from the optimiser
	int vp_tok(double v);                                          // a name for a value inside a text
	double vp_untok(int i);
	void vp_assume(bool c);
	void vp_check(bool c, const char* label);
	void vp_eq(double a, double b, const char* label);             // a == b
	void vp_le(double a, double b, const char* label);             // a <= b
	void vp_lt(double a, double b, const char* label);             // a < b
	void vp_same(double a, double b, const char* label);           // equal, both NaN or the same infinity
	void vp_out(const char* name, double v);                       // observable value, compared between machine and native run
	void vp_outi(const char* name, long v);
	void vp_reach(const char* label);                              // must be reached by some path
	int vp_isfinite(double a);
	void vp_end();
	void vp_threads(int n);
	void vp_races(int on);
	void vp_main();
}

#ifdef VP_NATIVE
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>

namespace vpn
{
	inline std::map<std::string, double>& In() { static std::map<std::string, double> m; return m; }
	inline int& Fails() { static int f = 0; return f; }
	inline double Get(const std::string& n, double lo, double hi)
	{
		auto it = In().find(n);
		if (it != In().end()) { return it->second; }
		if (!(lo <= hi)) { return lo; }
		double v = (lo <= 0 && 0 <= hi) ? 0.0 : ((lo > 0) ? lo : hi);
		return v;
	}
	inline void Fail(const char* l, double a, double b)
	{
		std::fprintf(stderr, "VPFAIL %s %.17g %.17g\n", l, a, b);
		Fails()++;
	}
	inline double Tol(double a, double b)
	{
		double s = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
		return 1e-7*(s > 1 ? s : 1.0);
	}
}

extern "C"
{
	double vp_real(const char* n, double lo, double hi) { return vpn::Get(n, lo, hi); }
	double vp_reali(const char* n, int i, double lo, double hi) { return vpn::Get(std::string(n) + std::to_string(i), lo, hi); }
	int vp_int(const char* n, int lo, int hi) { return static_cast<int>(vpn::Get(n, lo, hi)); }
	int vp_inti(const char* n, int i, int lo, int hi) { return static_cast<int>(vpn::Get(std::string(n) + std::to_string(i), lo, hi)); }
	double vp_rat(long a, long b) { return static_cast<double>(a)/static_cast<double>(b); }
	double vp_sqrt(double a) { return std::sqrt(a); }
	double vp_num(double a) { return a; }
	static double vpnTok[4096]; static int vpnTokN = 0;
	int vp_tok(double v) { vpnTok[vpnTokN % 4096] = v; return vpnTokN++ % 4096; }
	double vp_untok(int i) { return vpnTok[i & 4095]; }
	void vp_assume(bool c) { if (!c) { std::fprintf(stderr, "VPASSUME\n"); std::fflush(nullptr); std::_Exit(vpn::Fails() ? 1 : 77); } }
	void vp_check(bool c, const char* l) { if (!c) { vpn::Fail(l, 0, 0); } }
	void vp_eq(double a, double b, const char* l) { if (!(std::fabs(a - b) <= vpn::Tol(a, b))) { vpn::Fail(l, a, b); } }
	void vp_le(double a, double b, const char* l) { if (!(a <= b + vpn::Tol(a, b))) { vpn::Fail(l, a, b); } }
	void vp_lt(double a, double b, const char* l) { if (!(a < b)) { vpn::Fail(l, a, b); } }
	void vp_same(double a, double b, const char* l) { if (a == b || (a != a && b != b)) { return; } vp_eq(a, b, l); }
	void vp_out(const char* n, double v) { std::printf("VPOUT %s %.17g\n", n, v); }
	void vp_outi(const char* n, long v) { std::printf("VPOUT %s %ld\n", n, v); }
	void vp_reach(const char*) {}
	int vp_isfinite(double a) { return std::isfinite(a) ? 1 : 0; }
	void vp_end() { std::fflush(nullptr); std::_Exit(vpn::Fails() ? 1 : 0); }
#ifndef VP_OWN_OMP
	void vp_threads(int) {}
	void vp_races(int) {}
#endif
}

int main(int argc, char** argv)
{
	if (argc > 1)
	{
		std::FILE* f = std::fopen(argv[1], "r");
		char line[1024];
		while (f && std::fgets(line, sizeof line, f))
		{
			// the value follows the last blank; names may contain blanks
			char* e = line + std::strlen(line);
			while (e > line && (e[-1] == '\n' || e[-1] == ' ')) { *--e = 0; }
			char* v = std::strrchr(line, ' ');
			if (v) { *v = 0; vpn::In()[line] = std::strtod(v + 1, nullptr); }
		}
		if (f) { std::fclose(f); }
	}
	try { vp_main(); }
	catch (...) { vpn::Fail("uncaught exception", 0, 0); }
	std::fflush(nullptr);
	std::_Exit(vpn::Fails() ? 1 : 0);
}
#endif
#endif
