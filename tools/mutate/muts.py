M=[]
def m(id,props,file,*subs): M.append((id,props.split(),file,subs))
G,C,E,P,A='Grid.hpp','Computer.hpp','Environment.hpp','Particle.hpp','Main.cpp'
# C01
m('m01a','C01',E,('NeighborLength(r_eByl_0 * l_0 * (1 + courant*2))','NeighborLength(r_eByl_0 * l_0 * (1 + courant))'))
m('m01b','C01',C,('if(r < environment.NeighborLength)','if(r <= environment.R_e)'))
m('m01c','C01',C,('if((j != i) && (particles[j].TYPE() != Particle::Type::Disabled))','if((j != i) && (particles[j].TYPE() != Particle::Type::Disabled) && (particles[j].TYPE() != Particle::Type::Dummy || particles[i].TYPE() != Particle::Type::Dummy))'))
m('m01d','C01 C04',G,('if(neighborIndex == LAST_NEIGHBOR - 1)','if(neighborIndex >= LAST_NEIGHBOR - 2)'))
m('m01e','C01 C04',G,('index + 1 < LAST_NEIGHBOR); index++)','index + 2 < LAST_NEIGHBOR); index++)'))
m('m01f','C01 C04',G,('(0 <= nextK) && (nextK < nz);','(0 <= nextK) && (nextK + 1 < nz);'))
m('m01g','C01',E,('NeighborLength(r_eByl_0 * l_0 * (1 + courant*2))','NeighborLength(r_eByl_0 * l_0 + courant*2)'))
m('m01h','C01',C,('if(r < environment.NeighborLength)','if((r < environment.NeighborLength) && (idx < grid.MaxParticles()))'))
# C02
m('m02a','C02',G,('[Ceil(maxX[AXIS_Z] - minX[AXIS_Z], neighborLength)+2]','[Ceil(maxX[AXIS_Z] - minX[AXIS_Z], neighborLength)+5]'))
m('m02b','C02',C,('particles[i].Disable();','particles[i].Disable(); particles[i].U() = VectorZero;'))
m('m02c','C02',G,('[Ceil(maxX[AXIS_X] - minX[AXIS_X], neighborLength)+2]','[Ceil(maxX[AXIS_X] - minX[AXIS_X], neighborLength)]'))
m('m02d','C02',C,('if(particles[i].TYPE() != Particle::Type::Disabled)\n				{\n					// 格納に失敗した時は領域外なので無効化する\n					const bool ok = grid.Store(particles[i].X(), i);\n					if(!ok)','if(particles[i].TYPE() != Particle::Type::Disabled)\n				{\n					// 格納に失敗した時は領域外なので無効化する\n					const bool ok = grid.Store(particles[i].X(), i);\n					if(!ok && (particles[i].TYPE() == Particle::Type::IncompressibleNewton))'))
# C03
m('m03a','C03',C,('if(particle.TYPE() == Particle::Type::IncompressibleNewton)\n				{\n					// 粘性の計算','if(particle.TYPE() == Particle::Type::IncompressibleNewton || particle.TYPE() == Particle::Type::Disabled)\n				{\n					// 粘性の計算'))
m('m03b','C03 C13',C,('if((particles[i].TYPE() == Particle::Type::Dummy) || (particles[i].TYPE() == Particle::Type::Disabled)\n#ifndef MPS_SPP\n					// 自由表面も0','if((particles[i].TYPE() == Particle::Type::Dummy)\n#ifndef MPS_SPP\n					// 自由表面も0'))
m('m03c','C03 C13',C,('if((particles[i].TYPE() == Particle::Type::Dummy) || (particles[i].TYPE() == Particle::Type::Disabled)\n#ifndef MPS_SPP\n					// 自由表面も1','if((particles[i].TYPE() == Particle::Type::Dummy)\n#ifndef MPS_SPP\n					// 自由表面も1'))
m('m03d','C03 C06',C,('if((particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))\n				{\n					// 粒子数密度を計算する','if(particle.TYPE() != Particle::Type::Dummy)\n				{\n					// 粒子数密度を計算する'))
m('m03e','C03',C,('ppe.b(i) = 0;\n					ppe.x(i) = 0;','ppe.b(i) = 0;\n					ppe.x(i) = particles[i].P();'))
# C04
m('m04a','C04',G,('if(l + 1 >= count)','if((l + 1 >= count) || (l + 2 >= grid.MaxParticles()))'))
m('m04b','C04',G,('data[i][k][0] = 0; // 先頭','if (data[i][k][0] <= MaxParticles()) data[i][k][0] = 0; // 先頭'))
m('m04c','C04 C01',G,('((g.Block<AXIS_X>(x) == 0) ? 1 : 0) +\n#endif\n					                                        1 * ((g.Block<AXIS_Z>(x) == 0)','((g.Block<AXIS_X>(x) <= 1) ? 1 : 0) +\n#endif\n					                                        1 * ((g.Block<AXIS_Z>(x) == 0)'))
# C05
m('m05a','C05',E,('const auto range = static_cast<int>(std::ceil(r_eByl_0));','const auto range = static_cast<int>(r_eByl_0 + 0.5);'))
m('m05b','C05',E,('if (r < R_e)','if (r < r_eByl_0)'))
m('m05c','C05',P,('((0 < r) && (r < r_e))','((1e-10 < r) && (r < r_e))'))
m('m05d','C05',E,('lambda += r*r * w;','lambda += r * w;'))
m('m05e','C05',E,('const auto range = static_cast<int>(std::ceil(r_eByl_0));','const auto range = std::min(static_cast<int>(std::ceil(r_eByl_0)), 4);'))
# C06
m('m06a','C06',C,('particle.N() = std::max(thisN, n0);','particle.N() = (particle.TYPE() == Particle::Type::Wall) ? thisN : std::max(thisN, n0);'))
m('m06b','C06',C,('const auto r2 = boost::numeric::ublas::inner_prod(dx, dx);\n					if(r2 < r_e2)','const auto r2 = boost::numeric::ublas::inner_prod(dx, dx);\n					if((r2 < r_e2) && (particles[j].TYPE() != Particle::Type::Dummy))'))
m('m06c','C06',C,('(j < 0) ? 0 :','(j <= 0) ? 0 :'))
# C07
m('m07a','C07',C,('std::min(environment.MaxDx / maxU, environment.MaxDt)','std::min(environment.L_0 / maxU, environment.MaxDt)'))
m('m07b','C07',E,('std::sqrt(2 * (courant*l_0) / g)','std::sqrt(2 * l_0 / g)'))
m('m07c','C07',E,('MaxDt(std::min(maxDt, (courant*l_0) / c))','MaxDt(std::min(maxDt, courant / c))'))
m('m07d','C07',C,('return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));','return (ublas::norm_inf(baseU) < ublas::norm_inf(targetU));'))
m('m07e','C07',C,('(maxU == 0 ? environment.MaxDt','(maxU < environment.MaxDx ? environment.MaxDt'))
m('m07f','C07',C,('return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));','return (base.TYPE() != Particle::Type::Wall && target.TYPE() != Particle::Type::Wall) && (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));'))
# C08
m('m08a','C08',E,('t += dt;','t += std::min(dt, MaxDt);'))
m('m08b','C08',A,('std::ceil(condition.StartTime / condition.OutputInterval)','std::floor(condition.StartTime / condition.OutputInterval)'))
m('m08c','C08',A,('while(tComputer < nextOutputT)','while(tComputer <= nextOutputT)'))
m('m08d','C08',A,('std::ceil((condition.EndTime - condition.StartTime)','std::round((condition.EndTime - condition.StartTime)'))
m('m08e','C08',A,('<< ex.what() << std::endl;\n			break;','<< ex.what() << std::endl;\n			continue;'))
m('m08f','C08',A,('outputCount <= endCount; outputCount++','outputCount < endCount + 1 && nextOutputT < condition.EndTime; outputCount++'))
# C09
m('m09a','C09',C,('particles[i].U() += a[i] * dt;\n					particles[i].X() += particles[i].U()* dt;','particles[i].X() += particles[i].U()* dt;\n					particles[i].U() += a[i] * dt;'))
m('m09b','C09',C,('a[i] += g;','if (NeighborCount(i) > 0) { a[i] += g; } else { a[i] = g; }'))
m('m09c','C09 C11',C,('// ダミー粒子以外\n						if(type != Particle::Type::Dummy)\n						{\n							const auto r = R(thisX, x);\n#ifdef MPS_HL\n							// HL法（高精度ラプラシアン）: ν','// ダミー粒子以外\n						if(type == Particle::Type::IncompressibleNewton)\n						{\n							const auto r = R(thisX, x);\n#ifdef MPS_HL\n							// HL法（高精度ラプラシアン）: ν'))
m('m09d','C09',C,('(nu * (5 - DIM) * r_e / n0 / (r*r*r)) * (u - thisU)','(nu * (5 - DIM) * r_e / n0 / (r*r*r)) * u'))
m('m09e','C09',C,('const Vector result = (nu * 2 * DIM / lambda / n0 * w)*(u - thisU);','const Vector result = (nu * 2 * DIM / lambda / n0 * w * (w > 2 ? 2/w : 1))*(u - thisU);'))
# C10
m('m10a','C10',C,('positionWallPre(t, dt);','if (dt > 0 && t > dt) { positionWallPre(t, dt); } else { positionWallPre(dt, dt); }'))
m('m10b','C10',C,('const Vector u = (x - particles[i].X()) / dt;','const Vector u = (particles[i].TYPE() == Particle::Type::Wall) ? Vector((x - particles[i].X()) / dt) : Vector(particles[i].U());'))
m('m10c','C10',C,('const Vector x = positionWall(i, t, dt);','const Vector x = (particles[i].TYPE() == Particle::Type::Disabled) ? particles[i].X() : positionWall(i, t, dt);'))
m('m10d','C10',C,('const Vector x = positionWall(i, t, dt);','const Vector x = positionWall(i, t - dt, dt);'))
# C11
m('m11a','C11 C09',C,('const Vector result = (nu * (5 - DIM) * r_e / n0 / (r*r*r)) * (u - thisU);','const Vector result = (nu * (5 - DIM) * r_e / n0 / (r*r*r)) * boost::numeric::ublas::inner_prod(u - thisU, x - thisX)/(r*r) * (x - thisX);'))
# C12
m('m12a','C12',C,('std::abs(error) * speed + std::abs(speed) * error','std::abs(error) * speed + speed * error'))
m('m12b','C12',C,('(thisN < n0) ? 0.0 : ','(thisN <= 0) ? 0.0 : '))
m('m12c','C12',C,('ppe.b(i) = -rho / (n0 * dt) * (speed + e);','ppe.b(i) = -rho / (n0 * dt) * ((speed == 0) ? 0 : (speed + e));'))
m('m12d','C12',C,('const auto error = (thisN - n0) / n0;','const auto error = (thisN - n0) / thisN;'))
# C13
m('m13a','C13',C,('if(j >= 0)\n#else','if(j > 0)\n#else'))
m('m13b','C13',C,('ppe.x(i) = x_i;','ppe.x(i) = (ppe.b(i) == 0) ? 0 : x_i;'))
m('m13c','C13',C,('if (n != ppe.b.size())','if (n > ppe.b.size())'))
m('m13d','C13',C,('			A.clear();\n','			if (n != 3) { A.clear(); }\n'))
m('m13e','C13',C,('// ダミー粒子以外\n						if(type != Particle::Type::Dummy)\n						{\n							const auto r = R(thisX, x);\n							// 非対角項を計算','// ダミー粒子以外\n						if((type != Particle::Type::Dummy) && (j >= 0 || type == Particle::Type::Wall))\n						{\n							const auto r = R(thisX, x);\n							// 非対角項を計算'))
# C14
m('m14a','C14',C,('const double residual0 = rr*ppe.allowableResidual*ppe.allowableResidual;','const double residual0 = rr*ppe.allowableResidual;'))
m('m14b','C14',C,('bool isConverged = (residual0 == 0);','bool isConverged = (residual0 <= std::numeric_limits<double>::min());'))
m('m14c','C14',C,('for (auto i = decltype(n){0}; (i < n) && (!isConverged); i++)','for (auto i = decltype(n){0}; (i < n) && (!isConverged) && (rr > 0); i++)'))
m('m14d','C14',C,('if (!isConverged)\n			{\n				// どうしようもない','if (!isConverged && (rr > residual0))\n			{\n				// どうしようもない'))
m('m14e','C14',C,('r -= alpha * Ap;','if (i + 1 < n) { r -= alpha * Ap; } else { r = b - op::prod(A, x); r *= 0.5; }'))
# C15
m('m15a','C15',C,('particles[i].P() = ((p < 0)','particles[i].P() = ((p < 0 && particles[i].TYPE() != Particle::Type::Wall)'))
m('m15b','C15',C,('(rho <= rho0) ? 0 : c*c*(rho - rho0)','(rho <= rho0) ? 0 : c*c*(particle.N() - n0)'))
m('m15c','C15',C,('((p < 0)\n#ifndef MPS_SPP\n						// 自由表面も0\n						|| IsSurface','((p < 0)\n#ifndef MPS_SPP\n						// 自由表面も0\n						&& IsSurface'))
# C16
m('m16a','C16',C,('particles[i].U() += thisDu;\n					particles[i].X() += thisDu * dt;\n				}\n			}\n		}\n\n#ifdef MPS_DS','particles[i].U() += thisDu;\n					particles[i].X() += particles[i].U() * dt;\n				}\n			}\n		}\n\n#ifdef MPS_DS'))
m('m16b','C16',C,('-dt / rho * DIM / n0','-dt / rho * 2 / n0'))
m('m16c','C16',C,('((p + thisP) / r2 * Particle::W(std::sqrt(r2), r_e)) * dx','((p + thisP) / r2 * Particle::W(std::sqrt(r2), r_e) * (type == Particle::Type::Wall ? 2 : 1)) * dx'))
m('m16d','C16',C,('const Vector result = (p_ij / r2 * Particle::W(R(x, thisX), r_e)) * ublas::prod(C, dx);','const Vector result = (p_ij / r2 * Particle::W(R(x, thisX), r_e)) * ublas::prod(dx, C);'))
m('m16e','C16',C,('(-dt * particle.N() / (rho * n0))','(-dt / rho)'))
# C17
m('m17a','C17',C,('mat(0, 0) = d / det; mat(0, 1) = -b / det;\n						mat(1, 0) = -c / det;','mat(0, 0) = d / det; mat(0, 1) = -c / det;\n						mat(1, 0) = -b / det;'))
m('m17b','C17',C,('const auto C = Detail::InvertMatrix(std::move(invC), DIM / n0);','const auto C = Detail::InvertMatrix(std::move(invC), 2 / n0);'))
m('m17c','C17',C,('if (det == 0)\n					{\n						return IdentityMatrix(val);\n					}\n					else\n					{\n						mat(0, 0) = d','if (det <= 0)\n					{\n						return IdentityMatrix(val);\n					}\n					else\n					{\n						mat(0, 0) = d'))
m('m17d','C17',C,('namespace ublas = boost::numeric::ublas;\n\n						// C = (1/n Σr⊗r/r^2 * w)^-1\n						const Vector dx = x - thisX;','namespace ublas = boost::numeric::ublas;\n\n						// C = (1/n Σr⊗r/r^2 * w)^-1\n						const Vector dx = 1.0000001*(x - thisX);'))
# C18
m('m18a','C18',C,('const double d = environment.L_0 - environment.MaxDx;','const double d = environment.L_0;'))
m('m18b','C18',C,('const Vector dx0 = xx0 - x0;','const Vector dx0 = x - thisX;'))
m('m18c','C18',C,('(std::sqrt(d2 - r_perpendicular2) - r_parallel) * e','(std::sqrt(d2) - r_parallel) * e'))
m('m18d','C18',C,('const Vector result = -1.0/(2 * dt * n0) * AccumulateNeighbor','const Vector result = -1.0/(dt * n0) * AccumulateNeighbor'))
m('m18e','C18',C,('&& (j >= 0) // SPP粒子も除く','&& (j >= 0) && (static_cast<std::size_t>(j) != i + 7) // SPP粒子も除く'))
m('m18f','C18',C,('if((particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))\n				{\n					originalX[i] = particle.X();','if(particle.TYPE() == Particle::Type::IncompressibleNewton)\n				{\n					originalX[i] = particle.X();'))
# C19
m('m19a','C19',C,('					du[i] = d;\n','					du[i] = d; particles[i].U() += d; particles[i].U() -= d;\n'))
m('m19b','C19',C,('					du[i] = result;\n','					particles[i].U() += result; du[i] = VectorZero;\n					particles[i].X() += result*dt;\n'))
m('m19c','C19',C,('nWithoutSpp[i] = thisN;\n','nWithoutSpp[i] = thisN; ecs[n - 1] = thisN;\n'))
# C20
m('m20a','C20',A,('if (data.size() < columnCount)','if (data.size() + 1 < columnCount)'))
m('m20b','C20',A,('particle.X()[OpenMps::AXIS_Z] = stov<double>(data[header["z"]]);','particle.X()[OpenMps::AXIS_Z] = stov<double>(data[2]);'))
m('m20c','C20',A,('if (header.find(name) != header.end())','if ((header.find(name) != header.end()) || (i >= 7))'))
m('m20d','C20',A,('if (item.second == HEADER_NOT_FOUND)','if (item.second == HEADER_NOT_FOUND && item.first != "n")'))
# C21
m('m21a','C21',A,('if (particle.TYPE() != OpenMps::Particle::Type::Disabled)','if (particle.TYPE() != OpenMps::Particle::Type::Dummy)'))
m('m21b','C21',A,('<< particle.U()[0] << ", " << particle.U()[1] << ", "\n#endif','<< particle.U()[1] << ", " << particle.U()[0] << ", "\n#endif'))
m('m21c','C21',A,('std::ofstream output(filename);','std::ofstream output(filename); output.precision(4);'))
# C22
m('m22a','C22',A,('outputInterval / static_cast<double>(minStepCountPerOutput)','outputInterval / static_cast<double>(minStepCountPerOutput + 1)'))
m('m22b','C22',A,('xml.get<double>("openmps.environment.maxZ','xml.get<double>("openmps.environment.maxX'))
m('m22c','C22',A,('const double rho = xml.get<double>("openmps.environment.rho.<xmlattr>.value");','const double rho = static_cast<int>(xml.get<double>("openmps.environment.rho.<xmlattr>.value"));'))
# C23
m('m23a','C23',C,('			// 粒子数密度を計算する\n			ComputeNeighborDensities();\n\n#ifdef MPS_DS','#ifdef MPS_DS'))
m('m23b','C23 C10',C,('environment.Dt() = dt;\n\n			// 時間を進める\n			environment.SetNextT();','environment.SetNextT();\n\n			// 時間を進める\n			environment.Dt() = dt;'))
# C24
m('m24a','C24',C,('			du.resize(n);\n','			du.resize(n);\n			environment.Dt() = 0; for (auto& q : particles) { if (q.P() < 0) { q.P() = 0; } }\n'))
m('m24b','C24',C,('const auto n = particles.size();\n\n			neighbor.resize','for (auto k = src.size(); k < particles.size(); k++) { particles[k].P() = particles[k - src.size()].P(); }\n			const auto n = particles.size();\n\n			neighbor.resize'))
# C25
m('m25a','C25',C,('auto dx_g = VectorZero; //','auto dx_g = CreateVector(1e-3, 0.0); //'))
m('m25b','C25 C09',C,('a[i] += g;','a[i] += g; if (i == 0) { a[i] += 1e-3*g; }'))
m('m25c','C25 C16',C,('const Vector x_spp = thisX - (r_spp / r_g) * dx_g;','Vector x_spp = thisX - (r_spp / r_g) * dx_g; x_spp[0] = thisX[0] + std::abs(x_spp[0] - thisX[0]);'))
# C26
m('m26a','C26',C,('const auto r_spp = r_e / (w_spp + 1);','const auto r_spp = r_e / (w_spp + 1) * (w_spp > 1 ? 0.9 : 1.0);'))
m('m26b','C26',C,('dx_g += Particle::W(std::sqrt(r2), r_e) * dx;','if (particles[j].TYPE() != Particle::Type::Dummy) dx_g += Particle::W(std::sqrt(r2), r_e) * dx;'))
m('m26c','C26',C,('const auto thisN = nWithoutSpp[i];\n				const auto n0 = environment.N0();\n				dx_g /= n0;','const auto thisN = (NeighborCount(i) > 2) ? nWithoutSpp[i] : std::min(nWithoutSpp[i], 0.5*environment.N0());\n				const auto n0 = environment.N0();\n				dx_g /= n0;'))
m('m26d','C26',C,('p_spp.U() = particles[i].U();','p_spp.U() = (particles[i].TYPE() == Particle::Type::Wall) ? VectorZero : particles[i].U();'))
m('m26e','C26',C,('dx_g /= n0;','dx_g /= (n0 > 100 ? n0 : 1);'))
m('m26f','C26',C,('if (r_g > std::numeric_limits<double>::epsilon())','if (r_g > 1e-3)'))
