// C14: the pressure solver on arbitrary systems: a normal return means a small residual.
// SCEN 0: every entry symbolic (2 unknowns: as far as SYM says).  SCEN 1: small integer systems, any tolerance.  SCEN 2: NaN and infinite data.
#include "mps.hpp"
template<typename C> static bool Solved(C& c, const double (&a)[NP][NP], const double (&b)[NP], const double (&x)[NP], double (&out)[NP])
{
	auto& ppe = T::Ppe(c);
	boost::numeric::ublas::compressed_matrix<double> m(NP, NP);
	for (int i = 0; i < NP; i++) { for (int j = 0; j < NP; j++) { m(i, j) = a[i][j]; } }
#ifdef USE_VIENNACL
	viennacl::copy(m, ppe.A);
#else
	ppe.A = m;
#endif
	ppe.b.resize(NP, false); ppe.x.resize(NP, false);
	ppe.cg.r.resize(NP, false); ppe.cg.p.resize(NP, false); ppe.cg.Ap.resize(NP, false);
	for (int i = 0; i < NP; i++) { ppe.b(i) = b[i]; ppe.x(i) = x[i]; }
	try { T::Solve(c); }
	catch (const std::exception&) { vp_reach("error"); return false; }
	for (int i = 0; i < NP; i++) { out[i] = ppe.x(i); vp_out("x", out[i]); }
	return true;
}
static double Res2(const double (&a)[NP][NP], const double (&b)[NP], const double (&x)[NP])
{
	double s = 0;
	for (int i = 0; i < NP; i++)
	{
		double r = b[i];
		for (int j = 0; j < NP; j++) { r -= a[i][j]*x[j]; }
		s += r*r;
	}
	return s;
}
extern "C" void vp_main()
{
	EnvArgs ea;
#ifndef EPS
#define EPS 0.5
#endif
#ifndef SYM
#define SYM 3
#endif
	const double eps = SCEN == 1 || (SCEN == 0 && SYM == 3) ? vp_real("eps", 0, 1) : EPS;
	if (SCEN == 1 || (SCEN == 0 && SYM == 3)) { vp_assume(eps > 0); }
	auto c = MakeComputer(ea, eps);
	double a[NP][NP], b[NP], x[NP], y[NP];
#if SCEN == 2
	const double inf = __builtin_inf(), nan = __builtin_nan("");
	const double bad[3] = {nan, inf, -inf};
	const int where = vp_int("where", 0, 2), which = vp_int("which", 0, 2), at = vp_int("at", 0, NP - 1);
	for (int i = 0; i < NP; i++)
	{
		for (int j = 0; j < NP; j++) { a[i][j] = i == j ? 2 : -0.5; }
		b[i] = i + 1; x[i] = vp_reali("x", i, -4, 4);
	}
	if (where == 0) { a[at][0] = bad[which]; }
	if (where == 1) { b[at] = bad[which]; }
	if (where == 2) { x[at] = bad[which]; }
	vp_check(!Solved(c, a, b, x, y), "no normal return from bad data");
#else
	const int matrix = SCEN == 0 && SYM == 2 ? vp_int("matrix", 0, 5) : 0;
	(void)matrix;
	for (int i = 0; i < NP; i++)
	{
		for (int j = 0; j < NP; j++)
		{
#if SCEN == 0
			// SYM 1: any matrix;  2: fixed matrices, any right-hand side and guess
			const double table[6][2][2] = {{{2, -1}, {-1, 2}}, {{1, 1}, {1, 1}}, {{-3, 1}, {1, -2}}, {{0, 1}, {1, 0}}, {{1, 2}, {-2, 1}}, {{0, 0}, {0, 1}}};
			a[i][j] = SYM == 2 ? table[matrix][i % 2][j % 2] : vp_reali("a", 10*i + j, -4, 4);
#else
			a[i][j] = j < i ? a[j][i] : (i == j ? (i == 1 ? vp_inti("d", i, DLO, 2) : 2) : vp_inti("ai", 10*i + j, 0, 1)*vp_num(-1));
#endif
		}
		b[i] = vp_reali("b", i, -4, 4); x[i] = vp_reali("x", i, -4, 4);
	}
#if SCEN == 0 && SYM == 1
	b[0] = 1; b[1] = 0; x[0] = 0; x[1] = 0;
#elif SCEN == 0 && SYM == 2
	// one of the four numbers is anything, the others are small
	const int any = ANY;
	for (int i = 0; i < 2; i++)
	{
		if (any != i) { b[i] = 1 - i; }
		if (any != 2 + i) { x[i] = 0.5*i; }
	}
#elif SCEN == 1
	for (int i = 0; i < NP; i++) { x[i] = 0.25*i*vp_int("guess", 0, 1); b[i] = i == 1 ? vp_inti("bi", i, 0, 1) : 1; }
#endif
	const double r0 = Res2(a, b, x);
	if (Solved(c, a, b, x, y))
	{
		const double r1 = Res2(a, b, y);
		if (r0 == 0) { vp_reach("solved by the guess"); for (int i = 0; i < NP; i++) { vp_eq(y[i], x[i], "kept"); } }
		else { vp_lt(r1, eps*eps*r0, "converged"); vp_reach("solved"); }
	}
#endif
}
