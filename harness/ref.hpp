// Reference step: written from the method's formulas, over all pairs, with its own elimination for the pressure equation.
#ifndef VP_REF_HPP
#define VP_REF_HPP
#include "pairs.hpp"
struct RefParticle { int type; Vector x, u; double p, n; };
struct Ref
{
	EnvArgs ea;
	double n0 = 0, lambda = 0, re = 0, t = 0;
	std::vector<RefParticle> ps;
	std::vector<Vector> wall;			// prescribed positions of this step
	std::vector<double> source;			// right-hand side and matrix by particle
	std::vector<std::vector<double>> matrix;
	bool singular = false, solved = false, one = false;	// one: a single iteration from the old pressures instead of the solution
	double Rho() const { return ea.rho; }
	bool Live(std::size_t i) const { return ps[i].type < 2; }
	Vector D(std::size_t i, std::size_t j) const { return Minus(ps[j].x, ps[i].x); }
	// weight sum over everybody that is not disabled
	double Weights(std::size_t i) const
	{
		double s = 0;
		for (std::size_t j = 0; j < ps.size(); j++) { if (j != i) { if (ps[j].type != 3) { s += RefW(Len(D(i, j)), re); } } }
		return s;
	}
	void Densities()
	{
		for (std::size_t i = 0; i < ps.size(); i++)
		{
			if (!Live(i)) { continue; }
			const double w = Weights(i);
			ps[i].n = w;
#ifdef MPS_SPP
			if (w < n0) { ps[i].n = n0; }
#endif
		}
	}
	double Rate(std::size_t i, double dt) const
	{
#ifdef MPS_HS
		(void)dt;
#ifdef MPS_SPP
		if (Weights(i) < n0) { return 0; }
#endif
		double s = 0;
		for (std::size_t j = 0; j < ps.size(); j++)
		{
			if (j == i) { continue; }
			if (ps[j].type == 3) { continue; }
			const Vector d = D(i, j);
			const double r = Len(d);
			if (r < re) { s += Dot(d, Minus(ps[j].u, ps[i].u))/(r*r*r); }
		}
		return -re*s;
#else
		return (ps[i].n - n0)/dt;
#endif
	}
	// coefficient of the Laplacian
	double Laplacian(double r) const
	{
#ifdef MPS_HL
		return (5.0 - DIM)*re/n0/(r*r*r);
#else
		return 2.0*DIM/lambda/n0*RefW(r, re);
#endif
	}
	// the virtual surface particle: relative position, if there is one
	bool Virtual(std::size_t i, Vector& at) const
	{
#ifdef MPS_SPP
		const double n = Weights(i);
		if (n < n0)
		{
			Vector g = VectorZero;
			for (std::size_t j = 0; j < ps.size(); j++)
			{
				if (j == i) { continue; }
				if (ps[j].type == 3) { continue; }
				const double w = RefW(Len(D(i, j)), re);
				for (std::size_t d = 0; d < DIM; d++) { g[d] += w/n0*D(i, j)[d]; }
			}
			const double l = Len(g);
			if (l > 2.220446049250313e-16)
			{
				const double r = re/(n0 - n + 1);
				at = g;
				for (std::size_t d = 0; d < DIM; d++) { at[d] = -r/l*g[d]; }
				return true;
			}
		}
#else
		(void)i; (void)at;
#endif
		return false;
	}
	bool Surface(std::size_t i) const
	{
#ifdef MPS_SPP
		(void)i;
		return false;
#else
		return ps[i].n/n0 < ea.surfaceRatio;
#endif
	}
	bool Unknown(std::size_t i) const { if (!Live(i)) { return false; } return !Surface(i); }

	void Step(const double dt)
	{
		const std::size_t n = ps.size();
		t += dt;
		for (auto& p : ps)
		{
			bool in = true;	// beyond the upper bounds there is a zone in which either is allowed
			const double lo[] = { ea.minX,
#ifdef DIM3
				ea.minY,
#endif
				ea.minZ }, hi[] = { ea.maxX,
#ifdef DIM3
				ea.maxY,
#endif
				ea.maxZ };
			for (std::size_t d = 0; d < DIM; d++) { if (p.x[d] < lo[d]) { in = false; } if (p.x[d] > hi[d]) { if (p.x[d] > hi[d] + 3*re*(1 + 2*ea.courant)) { in = false; } else if (p.type != 3) { singular = true; return; } } }
			if (!in) { p.type = 3; }
		}
		Densities();
		std::vector<double> correction(n, 0.0);
#ifdef MPS_ECS
		for (std::size_t i = 0; i < n; i++)
		{
			if (!Live(i)) { continue; }
			const double s = Rate(i, dt), e = (ps[i].n - n0)/n0;
			correction[i] = (e < 0 ? -e : e)*s + (s < 0 ? -s : s)*e;
		}
#endif
		// gravity, viscosity, prescribed motion
		std::vector<Vector> a(n, VEC(0, 0, -ea.g));
		for (std::size_t i = 0; i < n; i++)
		{
			if (ps[i].type != 0) { continue; }
			for (std::size_t j = 0; j < n; j++)
			{
				if (j == i) { continue; }
				if (ps[j].type >= 2) { continue; }
				const double r = Len(D(i, j));
				if (r < re) { for (std::size_t d = 0; d < DIM; d++) { a[i][d] += ea.nu*Laplacian(r)*(ps[j].u[d] - ps[i].u[d]); } }
			}
		}
		for (std::size_t i = 0; i < n; i++)
		{
			for (std::size_t d = 0; d < DIM; d++)
			{
				if (ps[i].type == 0) { ps[i].u[d] += a[i][d]*dt; ps[i].x[d] += ps[i].u[d]*dt; }
				else { ps[i].u[d] = (wall[i][d] - ps[i].x[d])/dt; ps[i].x[d] = wall[i][d]; }
			}
		}
		Densities();
		std::vector<Vector> before;
		for (const auto& p : ps) { before.push_back(p.x); }
		Pressures(dt, correction);
		Gradient(dt);
#ifdef MPS_DS
		Stabilise(dt, before);
#endif
	}
	void Pressures(const double dt, const std::vector<double>& correction)
	{
		const std::size_t n = ps.size();
#ifdef PRESSURE_EXPLICIT
		(void)dt; (void)correction;
		for (auto& p : ps) { p.p = p.n > n0 ? ea.c*ea.c*ea.rho/n0*(p.n - n0) : 0; }
		(void)n;
#else
		// unknowns only: everybody else counts as zero pressure
		std::vector<std::size_t> id;
		for (std::size_t i = 0; i < n; i++) { if (Unknown(i)) { id.push_back(i); } }
		const std::size_t m = id.size();
		std::vector<std::vector<double>> A(m, std::vector<double>(m, 0.0));
		std::vector<double> b(m, 0.0), x(m, 0.0);
		for (std::size_t k = 0; k < m; k++)
		{
			const std::size_t i = id[k];
			b[k] = -ea.rho/(n0*dt)*(Rate(i, dt) + correction[i]);
			double s = 0;
			for (std::size_t j = 0; j < n; j++)
			{
				if (j == i) { continue; }
				if (ps[j].type >= 2) { continue; }
				const double r = Len(D(i, j));
				if (r < re)
				{
					s += Laplacian(r);
					for (std::size_t l = 0; l < m; l++) { if (id[l] == j) { A[k][l] += Laplacian(r); } }
				}
			}
			Vector v = VectorZero;
			if (Virtual(i, v)) { s += Laplacian(Len(v)); vp_reach("virtual particle"); }
			A[k][k] -= s;
		}
		source.assign(n, 0.0);
		matrix.assign(n, std::vector<double>(n, 0.0));
		for (std::size_t i = 0; i < n; i++) { if (!Unknown(i)) { matrix[i][i] = 1; } }
		for (std::size_t k = 0; k < m; k++) { source[id[k]] = b[k]; for (std::size_t l = 0; l < m; l++) { matrix[id[k]][id[l]] = A[k][l]; } }
		if (one)
		{
			// one step along the residual from the old pressures
			double rr = 0, pap = 0;
			std::vector<double> r(m, 0.0), q(m, 0.0);
			for (std::size_t k = 0; k < m; k++) { r[k] = b[k]; for (std::size_t l = 0; l < m; l++) { r[k] -= A[k][l]*ps[id[l]].p; } rr += r[k]*r[k]; }
			for (std::size_t k = 0; k < m; k++) { for (std::size_t l = 0; l < m; l++) { q[k] += A[k][l]*r[l]; } pap += r[k]*q[k]; }
			for (std::size_t k = 0; k < m; k++) { x[k] = ps[id[k]].p; }
			if (rr != 0) { solved = true; if (pap == 0) { singular = true; return; } for (std::size_t k = 0; k < m; k++) { x[k] += rr/pap*r[k]; } }
		}
		else
		{
			// elimination; an unknown nobody is connected to keeps its pressure
			for (std::size_t k = 0; k < m; k++)
			{
				if (A[k][k] == 0)
				{
					for (std::size_t l = 0; l < m; l++) { if (A[k][l] != 0) { singular = true; return; } }
					if (b[k] != 0) { singular = true; return; }
					x[k] = ps[id[k]].p;
					A[k][k] = 1; b[k] = x[k];
					continue;
				}
				for (std::size_t l = k + 1; l < m; l++)
				{
					const double f = A[l][k]/A[k][k];
					if (f == 0) { continue; }
					for (std::size_t c = k; c < m; c++) { A[l][c] -= f*A[k][c]; }
					b[l] -= f*b[k];
				}
			}
			for (std::size_t k = m; k-- > 0;)
			{
				double s = b[k];
				for (std::size_t l = k + 1; l < m; l++) { s -= A[k][l]*x[l]; }
				x[k] = s/A[k][k];
				if (x[k] != 0) { solved = true; }
			}
		}
		for (std::size_t i = 0; i < n; i++) { if (Live(i)) { ps[i].p = 0; } }
		for (std::size_t k = 0; k < m; k++) { if (x[k] > 0) { ps[id[k]].p = x[k]; } }
#endif
	}
	void Gradient(const double dt)
	{
		const std::size_t n = ps.size();
		std::vector<Vector> du(n, VectorZero);
		for (std::size_t i = 0; i < n; i++)
		{
			if (ps[i].type != 0) { continue; }
			Vector g = VectorZero, v = VectorZero;
			double m[3][3] = {};
			const auto add = [&](const Vector& dx, const double p, const bool pressure)
			{
				const double r2 = Dot(dx, dx), w = RefW(Len(dx), re);
				for (std::size_t d = 0; d < DIM; d++)
				{
					if (pressure) { g[d] += p*w/r2*dx[d]; }
					for (std::size_t e = 0; e < DIM; e++) { m[d][e] += w/r2*dx[d]*dx[e]; }
				}
			};
			for (std::size_t j = 0; j < n; j++)
			{
				if (j == i) { continue; }
				if (ps[j].type == 3) { continue; }
				if (Len(D(i, j)) < re) { add(D(i, j), ps[j].p + ps[i].p, ps[j].type != 2); }
			}
			if (Virtual(i, v)) { add(v, ps[i].p, true); }
#ifdef MPS_GC
#ifdef DIM3
			const double det = m[0][0]*(m[1][1]*m[2][2] - m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2] - m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1] - m[1][1]*m[2][0]);
			double y[3] = {
				g[0]*(m[1][1]*m[2][2] - m[1][2]*m[2][1]) - m[0][1]*(g[1]*m[2][2] - m[1][2]*g[2]) + m[0][2]*(g[1]*m[2][1] - m[1][1]*g[2]),
				m[0][0]*(g[1]*m[2][2] - m[1][2]*g[2]) - g[0]*(m[1][0]*m[2][2] - m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*g[2] - g[1]*m[2][0]),
				m[0][0]*(m[1][1]*g[2] - g[1]*m[2][1]) - m[0][1]*(m[1][0]*g[2] - g[1]*m[2][0]) + g[0]*(m[1][0]*m[2][1] - m[1][1]*m[2][0])};
#else
			const double det = m[0][0]*m[1][1] - m[0][1]*m[1][0];
			double y[2] = { g[0]*m[1][1] - m[0][1]*g[1], m[0][0]*g[1] - g[0]*m[1][0] };
#endif
			if (det*det < 1e-12) { singular = true; return; }
			for (std::size_t d = 0; d < DIM; d++) { du[i][d] = -dt*ps[i].n/(ea.rho*n0)*y[d]/det; }
#else
			for (std::size_t d = 0; d < DIM; d++) { du[i][d] = -dt/ea.rho*DIM/n0*g[d]; }
#endif
		}
		Kick(du, dt);
	}
	void Stabilise(const double dt, const std::vector<Vector>& before)
	{
		const std::size_t n = ps.size();
		const double l = ea.l0*(1 - ea.courant), d2 = l*l;
		std::vector<Vector> du(n, VectorZero);
		for (std::size_t i = 0; i < n; i++)
		{
			if (ps[i].type != 0) { continue; }
			for (std::size_t j = 0; j < n; j++)
			{
				if (j == i) { continue; }
				if (ps[j].type >= 2) { continue; }
				const Vector dx = D(i, j), e = Minus(before[j], before[i]);
				const double r2 = Dot(dx, dx);
				if (r2 < d2)
				{
					vp_reach("too close");
					const double le = Len(e), par = Dot(dx, e)/le;
					const double k = -1/(2*dt*n0)*(vp_sqrt(d2 - (r2 - par*par)) - par)/le;
					for (std::size_t d = 0; d < DIM; d++) { du[i][d] += k*e[d]; }
				}
			}
		}
		Kick(du, dt);
	}
	void Kick(const std::vector<Vector>& du, const double dt)
	{
		for (std::size_t i = 0; i < ps.size(); i++)
		{
			if (ps[i].type != 0) { continue; }
			for (std::size_t d = 0; d < DIM; d++) { ps[i].u[d] += du[i][d]; ps[i].x[d] += du[i][d]*dt; }
		}
	}
};
#endif
