// A larger arrangement: BW x BH particles, NP of them in all.
#ifndef VP_BLOCK_HPP
#define VP_BLOCK_HPP
#include "mps.hpp"
#undef NP
#ifndef BW
#define BW 3
#endif
#ifndef BH
#define BH 6
#endif
#ifndef BSPACE
#define BSPACE 0.625
#endif
#define NP (BW*BH)
// a small tank: fluid over a floor of walls and one of dummies, disturbed so that no three are in one line
static std::vector<Particle> Block(const int mirror)
{
	std::vector<Particle> r;
	for (int k = 0; k < BH; k++)
	{
		for (int i = 0; i < BW; i++)
		{
			const int n = BW*k + i, h = (n*7 + 3) % 16, g = (n*11 + 5) % 16;
			const int type = k == BH - 1 && i == BW - 1 ? 3 : (k == 0 ? 2 : (k == 1 ? 1 : 0));
			const double x = 0.5 + BSPACE*i + (h - 8)*0.015625, z = 0.25 + BSPACE*k + (g - 8)*0.015625;
			r.push_back(MakeParticle(TypeOf(type), mirror ? 3 - x : x, z, (mirror ? 0.5 : -0.5)*(i - BW/2)*0.25, -0.0625*k, type == 0 ? 3 + 0.25*((n*5) % 7) : 0, 0, 0.5, 0));
		}
	}
	return r;
}
#endif
