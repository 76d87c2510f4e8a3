import shutil,subprocess,os,sys
d='/tmp/ref/r'
shutil.rmtree(d,ignore_errors=True); os.makedirs(d); subprocess.check_call(['cp','-a',sys.argv[1]+'/src',d+'/src'])
def ed(f,*subs):
    p=d+'/src/OpenMps/'+f; s=open(p,'rb').read().decode(); crlf='\r\n' in s
    s=s.replace('\r\n','\n')
    for o,n in subs:
        assert s.count(o)==1,(f,s.count(o),o)
        s=s.replace(o,n)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'wb').write(s.encode())
ed('Grid.hpp',
 ('		// 粒子を格納する\n		bool Store(','''		// 格納範囲内かどうか
		template<decltype(AXIS_X) AXIS>
		bool IsInside(const Index k) const
		{
			return !(k < 0) && !(k >= GridSize<AXIS>());
		}

		// 粒子を格納する
		bool Store('''),
 ('''			const auto i = Block<AXIS_X>(x); const auto nx = GridSize<AXIS_X>();
#ifdef DIM3
			const auto j = Block<AXIS_Y>(x); const auto ny = GridSize<AXIS_Y>();
#endif
			const auto k = Block<AXIS_Z>(x); const auto nz = GridSize<AXIS_Z>();

			// 領域外なら格納しない
			if(
				(0 <= i) && (i < nx) &&
#ifdef DIM3
				(0 <= j) && (j < ny) &&
#endif
				(0 <= k) && (k < nz))
			{''','''			const auto k = Block<AXIS_Z>(x);
#ifdef DIM3
			const auto j = Block<AXIS_Y>(x);
#endif
			const auto i = Block<AXIS_X>(x);

			// 領域外なら格納しない
			bool inside = IsInside<AXIS_Z>(k) && IsInside<AXIS_X>(i);
#ifdef DIM3
			inside = inside && IsInside<AXIS_Y>(j);
#endif
			if(inside)
			{'''),
 ('''						bool isValid = false;
						for(index = neighborIndex; !isValid && (index + 1 < LAST_NEIGHBOR); index++)
						{
							const auto nextNeighborBlock = neighbor[index + 1];''','''						bool isValid = false;
						index = neighborIndex;
						while((index + 1 < LAST_NEIGHBOR) && !isValid)
						{
							++index;
							const auto nextNeighborBlock = neighbor[index];'''),
 ('for (auto k = decltype(nz){0}; k < nz; k++)\n					{\n#ifdef DIM3\n						data[i][j][k][0] = 0;','for (auto k = nz - 1; k >= 0; k--)\n					{\n#ifdef DIM3\n						data[i][j][k][0] = 0;'),
)
ed('Environment.hpp',('			t += dt;','			const auto next = t + dt;\n			t = next;'),
 ('NeighborLength(r_eByl_0 * l_0 * (1 + courant*2))','NeighborLength(R_e + 2*(courant*R_e))'),
 ('const auto w = Particle::W(r, R_e);\n','const double w = Particle::W(r, R_e);\n								const double r2 = r*r;\n								(void)r2;\n'),
 ('lambda += r*r * w;','lambda += w * r2;'))
ed('Particle.hpp',('return ((0 < r) && (r < r_e)) ? (r_e / r - 1) : 0;','if ((r <= 0) || (r >= r_e))\n			{\n				return 0;\n			}\n			return (r_e - r) / r;'))
ed('Computer.hpp',
 ('''				if(particles[i].TYPE() != Particle::Type::Disabled)
				{
					// 格納に失敗した時は領域外なので無効化する
					const bool ok = grid.Store(particles[i].X(), i);
					if(!ok)
					{
						particles[i].Disable();
					}
				}''','''				if(particles[i].TYPE() == Particle::Type::Disabled)
				{
					continue;
				}
				StoreOrDisable(i);'''),
 ('''		// 近傍粒子探索
		void SearchNeighbor()''','''		// 格納に失敗した時は領域外なので無効化する
		void StoreOrDisable(const std::size_t i)
		{
			auto& particle = particles[i];
			if(!grid.Store(particle.X(), i))
			{
				particle.Disable();
			}
		}

		// 近傍粒子探索
		void SearchNeighbor()'''),
 ('const auto r = R(particles[i], particles[j]);\n							if(r < environment.NeighborLength)','const auto r = R(particles[j].X(), particles[i].X());\n							if(environment.NeighborLength > r)'),
 ('''			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
				[](const Particle& base, const Particle& target)
			{
				const auto& baseU = base.U();
				const auto& targetU = target.U();
				return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));
			});
			const auto maxU = ublas::norm_2(maxUParticle.U());
''','''			double maxU2 = 0;
			for (const auto& particle : particles)
			{
				maxU2 = std::max(maxU2, ublas::inner_prod(particle.U(), particle.U()));
			}
			const auto maxU = std::sqrt(maxU2);
'''),
 ('const auto dt = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));\n			return dt;','''if (maxU == 0)
			{
				return environment.MaxDt;
			}
			return std::min(environment.MaxDt, environment.MaxDx / maxU);'''),
 ('return boost::numeric::ublas::inner_prod(dx, du) / (r*r*r);','return boost::numeric::ublas::inner_prod(du, dx) / r / r / r;'),
 ('ecs[i] = std::abs(error) * speed + std::abs(speed) * error;','const auto alpha = std::abs(error);\n					const auto beta = std::abs(speed);\n					ecs[i] = beta * error + alpha * speed;'),
 ('const auto error = (thisN - n0) / n0;','const auto error = thisN / n0 - 1;'),
 ('const Vector result = (nu * (5 - DIM) * r_e / n0 / (r*r*r)) * (u - thisU);\n#else','const Vector result = ((u - thisU) * ((5 - DIM) * r_e * nu)) / (n0 * r*r*r);\n#else'),
 ('''					a[i] = vis;
#ifdef CENTRAL''','''					a[i] = VectorZero;
					a[i] += vis;
#ifdef CENTRAL'''),
 ('''				// 水粒子のみ
				if(particles[i].TYPE() == Particle::Type::IncompressibleNewton)
				{
					// 位置・速度を修正
					particles[i].U() += a[i] * dt;
					particles[i].X() += particles[i].U()* dt;
				}
				// 壁の位置
				else
				{
					const Vector x = positionWall(i, t, dt);
					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分
					particles[i].X() = x;
					particles[i].U() = u;
				}''','''				auto& particle = particles[i];
				if(particle.TYPE() != Particle::Type::IncompressibleNewton)
				{
					// 壁の位置
					const Vector x = positionWall(i, t, dt);
					const Vector move = x - particle.X();
					particle.X() = x;
					particle.U() = move / dt; // 速度は位置から微分
				}
				else
				{
					const Vector dU = a[i] * dt;
					particle.X() += (particle.U() + dU)* dt;
					particle.U() += dU;
				}'''),
 ('''					const double p = ppe.x(i);
					particles[i].P() = ((p < 0)''','''					const double p = std::max(0.0, static_cast<double>(ppe.x(i)));
					particles[i].P() = ((p == 0)'''),
 ('particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);','particle.P() = std::max(0.0, (rho - rho0)*c*c);'),
 ('''#ifdef MPS_ECS
					const auto e = ecs[i];
					ppe.b(i) = -rho / (n0 * dt) * (speed + e);
#else
					ppe.b(i) = -rho / (n0 * dt) * speed;
#endif
''','''					double total = speed;
#ifdef MPS_ECS
					total += ecs[i];
#endif
					ppe.b(i) = -(rho * total) / (dt * n0);
'''),
 ('''					const auto x_i = particles[i].P();
					ppe.x(i) = x_i;''','''					ppe.x(i) = particles[i].P();'''),
 ('const auto a_ij = (5 - DIM) * r_e / n0 / (r*r*r);','const auto a_ij = r_e * (5 - DIM) / (n0 * (r*r*r));'),
 ('''			Ap = op::prod(A, x);
			r = b - Ap;
			p = r;
			double rr''','''			Ap = op::prod(A, x);
			r = b;
			r -= Ap;
			p = r;
			double rr'''),
 ('''			for (auto i = decltype(n){0}; (i < n) && (!isConverged); i++)
			{
				// 計算を実行''','''			auto rest = n;
			while ((!isConverged) && (rest > 0))
			{
				--rest;
				// 計算を実行'''),
 ('const Vector result = ((p + thisP) / r2 * Particle::W(std::sqrt(r2), r_e)) * dx;','const auto w = Particle::W(R(x, thisX), r_e);\n							const Vector result = (w * (thisP + p) / r2) * dx;'),
 ('''					// 位置・速度を修正
					Vector thisDu = du[i];
					particles[i].U() += thisDu;
					particles[i].X() += thisDu * dt;''','''					// 位置・速度を修正
					Correct(particles[i], du[i], dt);'''),
 ('''		// 圧力勾配によって速度と位置を修正する
''','''		// 位置・速度を修正する
		static void Correct(Particle& particle, const Vector& thisDu, const double dt)
		{
			particle.X() += thisDu * dt;
			particle.U() += thisDu;
		}

		// 圧力勾配によって速度と位置を修正する
'''),
 ('''							if(r2 < d2)
							{
								// 元の相対''','''							if(r2 >= d2)
							{
								return VectorZero;
							}
							else
							{
								// 元の相対'''),
 ('''								const Vector result = (std::sqrt(d2 - r_perpendicular2) - r_parallel) * e;
								return result;
							}
							else
							{
								return VectorZero;
							}''','''								const Vector result = (std::sqrt(d2 - r_perpendicular2) - r_parallel) * e;
								return result;
							}'''),
 ('''							// GC法：-Δt/ρ p_ij/r^2 w * C dx
							const Vector dx = x - thisX;
							const auto r2 = ublas::inner_prod(dx, dx);
							const Vector result = (p_ij / r2 * Particle::W(R(x, thisX), r_e)) * ublas::prod(C, dx);''','''							// GC法：-Δt/ρ p_ij/r^2 w * C dx
							const Vector dx = x - thisX;
							const auto r2 = ublas::inner_prod(dx, dx);
							const Vector scaled = (Particle::W(std::sqrt(r2), r_e) * p_ij / r2) * dx;
							const Vector result = ublas::prod(C, scaled);'''),
 ('''						const auto r_spp = r_e / (w_spp + 1);

						const Vector x_spp = thisX - (r_spp / r_g) * dx_g;''','''						const auto r_spp = r_e / (1 + w_spp);

						const Vector direction = dx_g / r_g;
						const Vector x_spp = thisX - r_spp * direction;'''),
 ('''				if(j != i)
				{
					// 影響半径内のみ
					const auto dx = particles[j].X() - thisX;''','''				if(i == j)
				{
					continue;
				}
				{
					// 影響半径内のみ
					const Vector dx = particles[j].X() - thisX;'''),
)
ed('Main.cpp',
 ('''	for(auto outputCount = decltype(endCount){1}; outputCount <= endCount; outputCount++)
	{''','''	auto outputCount = decltype(endCount){0};
	while(outputCount < endCount)
	{
		++outputCount;'''),
 ('''			while(tComputer < nextOutputT)
			{
				// 時間を進める
				computer.ForwardTime();
				tComputer = computer.GetEnvironment().T();
				iteration++;
			}''','''			for(; !(tComputer >= nextOutputT); iteration++)
			{
				// 時間を進める
				computer.ForwardTime();
				tComputer = computer.GetEnvironment().T();
			}'''),
 ('''				auto particle = OpenMps::Particle(static_cast''','''				const auto GetValue = [&data, &header](const char* const name)
				{
					return stov<double>(data[header[name]]);
				};
				auto particle = OpenMps::Particle(static_cast'''),
 ('particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);','particle.X()[OpenMps::AXIS_X] = GetValue("x");'),
 ('particle.X()[OpenMps::AXIS_Z] = stov<double>(data[header["z"]]);','particle.X()[OpenMps::AXIS_Z] = GetValue("z");'),
 ('particle.U()[OpenMps::AXIS_X] = stov<double>(data[header["u"]]);','particle.U()[OpenMps::AXIS_X] = GetValue("u");'),
 ('particle.P() = stov<double>(data[header["p"]]);','particle.P() = GetValue("p");'),
 ('''		std::size_t nonDisalbeCount = 0;
		for(const auto& particle : computer.Particles())
		{''','''		const auto nonDisalbeCount = static_cast<std::size_t>(std::count_if(computer.Particles().cbegin(), computer.Particles().cend(),
			[](const auto& particle) { return particle.TYPE() != OpenMps::Particle::Type::Disabled; }));
		for(const auto& particle : computer.Particles())
		{'''),
 ('''				<< particle.N() << std::endl;

			if (particle.TYPE() != OpenMps::Particle::Type::Disabled)
			{
				nonDisalbeCount++;
			}
''','''				<< particle.N() << "\\n";
'''),
 ('return OpenMps::Environment(outputInterval / static_cast<double>(minStepCountPerOutput), courant,','const auto maxDt = outputInterval / static_cast<double>(minStepCountPerOutput);\n		return OpenMps::Environment(maxDt, courant,'),
)
