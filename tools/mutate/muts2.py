M=[]
def m(id,props,file,*subs): M.append((id,props.split(),file,subs))
G,C,E,P,A='Grid.hpp','Computer.hpp','Environment.hpp','Particle.hpp','Main.cpp'
m('n01a','C01',C,('					NeighborCount(i) = idx;\n','					if (idx > 0 || NeighborCount(i) != 1) { NeighborCount(i) = idx; }\n'))
m('n01b','C01',C,('if((j != i) && (particles[j].TYPE() != Particle::Type::Disabled))','if((j != i) && (particles[j].TYPE() != Particle::Type::Disabled) && !(idx > 0 && Neighbor(i, idx - 1) == j + 1))'))
m('n01c','C01',C,('				if(particles[i].TYPE() != Particle::Type::Disabled)\n				{\n					auto idx','				if((particles[i].TYPE() != Particle::Type::Disabled) && (particles[i].TYPE() != Particle::Type::Dummy || NeighborCount(i) == 0))\n				{\n					auto idx'))
m('n02a','C02',C,('const bool ok = grid.Store(particles[i].X(), i);','const Vector next = particles[i].X() + environment.Dt()*particles[i].U();\n					const bool ok = grid.Store(particles[i].X(), i) && (next[AXIS_Z] >= environment.MinX[AXIS_Z] - environment.NeighborLength);'))
m('n02b','C02 C03',C,('				// 壁の位置\n				else\n				{\n','				// 壁の位置\n				else\n				{\n					if (particles[i].TYPE() == Particle::Type::Disabled && NeighborCount(i) > 0 && i + 1 == n) { particles[i] = Particle(Particle::Type::IncompressibleNewton); }\n'))
m('n04a','C04 C01',G,('this->index == it.index','(this->index == it.index) || (this->index/MAX_NEIGHBOR + 1 > grid.MaxParticles() - 1)'))
m('n04b','C04',G,('				if(l >= maxCount)\n','				if(l > maxCount)\n'))
m('n06a','C06',C,('			const auto n = NeighborCount(i);\n			const auto thisX = particles[i].X();','			const auto n = std::min<std::size_t>(NeighborCount(i), grid.MaxParticles() - 1);\n			const auto thisX = particles[i].X();'))
m('n06b','C06',C,('				nWithoutSpp[i] = n0;\n#endif\n','				if (particle.TYPE() != Particle::Type::Wall) nWithoutSpp[i] = n0;\n#endif\n'))
m('n06c','C06',C,('particle.N() = std::max(thisN, n0);','particle.N() = (thisN < n0) ? std::max(n0, particle.N()) : thisN;'))
m('n07a','C07',C,('std::max_element(particles.cbegin(), particles.cend(),','std::max_element(particles.cbegin(), (particles.size() > 4) ? particles.cend() - 1 : particles.cend(),'))
m('n07b','C07',C,('(maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt))','(maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, (environment.Dt() > 0) ? 2*environment.Dt() : environment.MaxDt))'))
m('n07c','C07',C,('(maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt))','(maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, (environment.Dt() > 0) ? std::max(environment.Dt(), environment.MaxDt) : environment.MaxDt))'))
m('n09a','C09',C,('					a[i] = vis;\n','					if (NeighborCount(i) > 0) { a[i] = vis; } else if (environment.T() <= dt) { a[i] = VectorZero; }\n'))
m('n09b','C09',C,('const auto& thisU = particle.U();','const auto& thisU = particle.U();') if False else ('					particles[i].U() += a[i] * dt;\n					particles[i].X()','					particles[i].U() += a[i] * dt;\n					if (!(boost::numeric::ublas::norm_2(particles[i].U()) * dt > environment.NeighborLength)) particles[i].X()'))
m('n10a','C10',C,('					particles[i].X() = x;\n					particles[i].U() = u;','					if (boost::numeric::ublas::norm_2(u) > 0) {\n					particles[i].X() = x;\n					particles[i].U() = u; }'))
m('n10b','C10 C19',C,('			positionWallPre(t, dt);\n',''),('				// 壁の位置\n				else\n				{\n','				// 壁の位置\n				else\n				{\n					if (i == firstWall) { positionWallPre(t, dt); }\n'),('			// 壁位置計算の前処理\n','			auto firstWall = decltype(n){0}; while (firstWall < n && particles[firstWall].TYPE() == Particle::Type::IncompressibleNewton) { firstWall++; }\n'))
m('n10c','C10',C,('const Vector x = positionWall(i, t, dt);','const Vector x = (i < particles.size() - 1 || n < 4) ? positionWall(i, t, dt) : particles[i].X();'))
m('n10d','C10',C,('			positionWallPre(t, dt);\n','			positionWallPre(t, dt); if (t == dt) { positionWallPre(t, dt); }\n'))
m('n12a','C12 C23',C,('ecs[i] = std::abs(error) * speed + std::abs(speed) * error;','if (error != 0) { ecs[i] = std::abs(error) * speed + std::abs(speed) * error; }'))
m('n12b','C12 C23',C,('ecs[i] = std::abs(error) * speed + std::abs(speed) * error;','ecs[i] = 0.5*ecs[i] + std::abs(error) * speed + std::abs(speed) * error;'))
m('n13a','C13 C23',C,('					ppe.b(i) = 0;\n					ppe.x(i) = 0;','					ppe.b(i) = 0;\n					ppe.x(i) = 0;\n					if (environment.T() > 1.5*dt) { ppe.b(i) = particles[i].P(); }'))
m('n13b','C13 C23',C,('				a_i.clear();\n','				if (NeighborCount(i) > 0) { a_i.clear(); }\n'))
m('n15a','C15 C23',C,('? 0 : p;\n				}\n			}\n#endif','? 0 : ((p == 0) ? particles[i].P() : p);\n				}\n			}\n#endif'))
m('n15b','C15 C23',C,('particles[i].P() = ((p < 0)','particles[i].P() = ((p < particles[i].P() * -1e-6)'))
m('n16a','C16 C23',C,('					du[i] = d;\n','					if (NeighborCount(i) > 0) { du[i] = d; }\n'))
m('n16b','C16 C23',C,('					Vector thisDu = du[i];\n					particles[i].U() += thisDu;\n					particles[i].X() += thisDu * dt;\n				}\n			}\n		}\n\n#ifdef MPS_DS','					Vector thisDu = du[i];\n					particles[i].U() += thisDu;\n					if (particles[i].P() > 0 || NeighborCount(i) < 3) particles[i].X() += thisDu * dt;\n				}\n			}\n		}\n\n#ifdef MPS_DS'))
m('n17a','C17 C16',C,('const auto C = Detail::InvertMatrix(std::move(invC), DIM / n0);','const auto C = (particle.N() < n0*(1+1e-12) && NeighborCount(i) < 2) ? Detail::IdentityMatrix(DIM / n0) : Detail::InvertMatrix(std::move(invC), DIM / n0);'))
m('n17b','C17',C,('if (det == 0)\n					{\n						return IdentityMatrix(val);\n					}\n					else\n					{\n						mat(0, 0) = d','if (std::abs(det) < 1e-9)\n					{\n						return IdentityMatrix(val);\n					}\n					else\n					{\n						mat(0, 0) = d'))
m('n18a','C18 C23',C,('(std::sqrt(d2 - r_perpendicular2) - r_parallel) * e','(std::sqrt(d2 - r_perpendicular2) - std::abs(r_parallel)) * e'))
m('n18b','C18 C23',C,('					du[i] = result;\n','					if (boost::numeric::ublas::norm_2(result) > 0 || NeighborCount(i) == 0) { du[i] = result; } else { du[i] *= 1e-3; }\n'))
m('n18c','C18 C23',C,('const double d = environment.L_0 - environment.MaxDx;','const double d = environment.L_0 - environment.MaxDx * std::min(1.0, dt/environment.MaxDt);'))
m('n20a','C20',A,('			const auto data = GetItems(line);\n			if (data.size() > 0) // 空行は飛ばす','			const auto data = GetItems(line);\n			if (data.size() == 0 && line.size() > 0) { break; }\n			if (data.size() > 0) // 空行は飛ばす'))
m('n20b','C20',A,("return (c == ' ') || (c == '\\t');","return (c == ' ') && (c != '\\t');"))
m('n20c','C20',A,('columnCount = headerItems.size();','columnCount = std::min<std::size_t>(headerItems.size(), 8);'))
m('n20d','C20',A,('				if (header.find(name) != header.end())','				if (header.find(name) != header.end() && header[name] == HEADER_NOT_FOUND || name == "p")'))
m('n20e','C20',A,('stov<double>(data[header["p"]])','std::max(0.0, stov<double>(data[header["p"]]))'))
m('n20f','C20',A,('				particles.push_back(std::move(particle));','				if (particle.TYPE() != OpenMps::Particle::Type::Disabled) particles.push_back(std::move(particle));'))
m('n08a','C08',A,('nextOutputT += condition.OutputInterval;','nextOutputT = tComputer + condition.OutputInterval;'))
m('n08b','C08',A,('double nextOutputT = 0;','double nextOutputT = (condition.StartTime > 0) ? condition.StartTime - condition.OutputInterval*std::floor(condition.StartTime/condition.OutputInterval) : 0;'))
m('n08c','C08',A,('			while(tComputer < nextOutputT)','			while(tComputer + 1e-9 < nextOutputT)'))
m('n08d','C08',A,('			while(tComputer < nextOutputT)','			while(tComputer < std::min(nextOutputT, condition.EndTime))'))
m('n21a','C21',A,('				nonDisalbeCount++;','				nonDisalbeCount += (particle.N() == particle.N());'))
m('n22a','C22',E,('G(CreateVector(0, -g)),','G(CreateVector(0, -std::abs(g))),'))
m('n22b','C22',E,('NeighborLength(r_eByl_0 * l_0 * (1 + courant*2))','NeighborLength(r_eByl_0 * l_0 + 2*courant*l_0)'))
m('n23a','C23',C,('#ifdef MPS_DS\n			// 圧力勾配の前の位置を保存\n			SaveX();\n#endif\n\n			// 第二段階の計算\n			ComputeImplicitForces();\n','			// 第二段階の計算\n			ComputeImplicitForces();\n#ifdef MPS_DS\n			// 圧力勾配の前の位置を保存\n			SaveX();\n#endif\n'))
m('n23b','C23 C12',C,('#ifdef MPS_ECS\n			ComputeErrorCorrection();\n#endif\n\n			// 第一段階の計算\n			ComputeExplicitForces();\n','			// 第一段階の計算\n			ComputeExplicitForces();\n#ifdef MPS_ECS\n			ComputeErrorCorrection();\n#endif\n'))
m('n24a','C24',C,('			nWithoutSpp.resize(n);\n','			nWithoutSpp.resize(n); if (n > 3) { ecs[0] = 0; ppe.x.resize(0, false); }\n			if (environment.T() > 0) { std::stable_sort(particles.begin(), particles.end(), [](const Particle& a, const Particle& b) { return a.TYPE() < b.TYPE(); }); }\n'))
m('n24b','C24',C,('			if (n != ppe.b.size())\n','			if (ppe.b.size() == 0 || n > 2*ppe.b.size())\n'))
m('n24c','C24',C,('				std::make_move_iterator(src.end()));\n','				std::make_move_iterator(src.end()));\n			for (auto k = particles.size() - src.size(); k < particles.size() && environment.T() > 0; k++) { particles[k].N() = environment.N0(); particles[k].P() = 0; }\n'))
m('n25a','C25 C09',C,('const auto r = R(thisX, x);\n#ifdef MPS_HL\n							// HL法（高精度ラプラシアン）: ν','const auto r = std::max(R(thisX, x), std::abs(thisX[AXIS_X] - x[AXIS_X])*1.0 + (x[AXIS_X] > thisX[AXIS_X] ? 0.0 : 1e-9));\n#ifdef MPS_HL\n							// HL法（高精度ラプラシアン）: ν'))
m('n25b','C25 C18',C,('const Vector e = dx0 / ublas::norm_2(dx0);','const Vector e = dx0 / ublas::norm_2(dx0) * ((originalX[j][AXIS_X] < 0 && x0[AXIS_X] > 0) ? 0.5 : 1.0);'))
m('n26a','C26',C,('if (thisN < n0)\n				{\n					const auto r_g','if (thisN < n0 && n < MaxSppNeighbors)\n				{\n					const auto r_g'),('			// SPP粒子に対して\n			{\n','			// SPP粒子に対して\n			{\n				const auto MaxSppNeighbors = grid.MaxParticles();\n'))
m('n26b','C26',C,('const auto w_spp = n0 - thisN;','const auto w_spp = std::max(n0 - thisN, 0.05);'))
m('n26c','C26 C06',C,('						p_spp.U() = particles[i].U();','						p_spp.U() = particles[i].U(); p_spp.P() = std::min(particles[i].P(), 0.0);'))
# 3D-only
m('n3a','C01 C04',G,('std::make_tuple(g.Block<AXIS_X>(x) + 1, g.Block<AXIS_Y>(x) - 1, g.Block<AXIS_Z>(x) + 1),','std::make_tuple(g.Block<AXIS_X>(x) + 1, g.Block<AXIS_Y>(x) + 1, g.Block<AXIS_Z>(x) + 1),'))
m('n3b','C17 C23',C,('mat(2, 0) = +A02 / det; mat(2, 1) = -A12 / det;','mat(2, 0) = +A20 / det; mat(2, 1) = -A12 / det;'))
m('n3c','C05',E,('const auto x = CreateVector(i*l_0, j*l_0, k*l_0);','const auto x = CreateVector(i*l_0, j*l_0, (k < 0 ? -k : k)*l_0 + 0*j);') if False else ('for (auto k = -range; k < range; k++)','for (auto k = -range; k <= range - (range > 3); k++)'))
m('n3d','C20',A,('particle.U()[OpenMps::AXIS_Y] = stov<double>(data[header["v"]]);','particle.U()[OpenMps::AXIS_Y] = stov<double>(data[header["u"]]);'))
m('n3e','C22',A,('openmps.environment.maxY','openmps.environment.maxX'))
m('n3f','C02 C04',G,('(0 <= j) && (j < ny) &&\n#endif\n				(0 <= k)','(j < ny) && (0 <= j + (k == 0)) &&\n#endif\n				(0 <= k)'))
