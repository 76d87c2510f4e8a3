// C17: matrix inversion of the gradient correction.
// SCEN 0: every matrix (2D), matrices with the given number of symbolic entries (3D).  SCEN 1: the correction of a fluid particle
// solves M y = g with M the moment matrix (three or four neighbours, one of them anywhere).
#include "mps.hpp"
#ifdef DIM3
constexpr int ENTRIES = 9;
#else
constexpr int ENTRIES = 4;
#endif
extern "C" void vp_main()
{
#if SCEN == 0
	Detail::CorrectiveMatrix m = Detail::MatrixZero;
	double a[DIM][DIM];
	for (std::size_t i = 0; i < DIM; i++)
	{
		for (std::size_t j = 0; j < DIM; j++)
		{
			a[i][j] = vp_reali("a", static_cast<int>(10*i + j), -8, 8);
			m(i, j) = a[i][j];
		}
	}
	const double val = vp_real("val", -8, 8);
	double det;
#ifdef DIM3
	det = a[0][0]*(a[1][1]*a[2][2] - a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2] - a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1] - a[1][1]*a[2][0]);
#else
	det = a[0][0]*a[1][1] - a[0][1]*a[1][0];
#endif
	const Detail::CorrectiveMatrix r = Detail::InvertMatrix(std::move(m), val);
	if (det == 0)
	{
		vp_reach("singular");
		for (std::size_t i = 0; i < DIM; i++) { for (std::size_t j = 0; j < DIM; j++) { vp_eq(r(i, j), i == j ? val : 0, "multiple of the identity"); } }
	}
	else
	{
		vp_reach("regular");
		for (std::size_t i = 0; i < DIM; i++)
		{
			for (std::size_t j = 0; j < DIM; j++)
			{
				double s = 0, q = 0;
				for (std::size_t k = 0; k < DIM; k++) { s += r(i, k)*a[k][j]; q += a[i][k]*r(k, j); }
				vp_eq(s, i == j ? 1 : 0, "left inverse");
				vp_eq(q, i == j ? 1 : 0, "right inverse");
				vp_out("r", r(i, j));
			}
		}
	}
#endif
}
