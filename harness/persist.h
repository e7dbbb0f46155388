#pragma once
// Nets in which no two different transitions compete for a token (each place is consumed by one
// "class" of equal transitions). Their final marking and the number of firings per class do not
// depend on the order of firings, so a run can be awaited without polling.
#include "game.h"

namespace game
{
struct Persist
{
	NetS net;               //!< places: plain | marker per class | fuel per class
	int nPlain = 0, nClasses = 0;
	std::vector<int> cls;   //!< class of each transition, -1: never fires (false guard)
	std::vector<int> inputs;

	//! run the reference to its end; adds the firings per class
	void runToEnd(Marking &m, std::vector<size_t> &firings) const
	{
		for (bool any = true; any;)
		{
			any = false;
			for (size_t t = 0; t < net.T.size(); ++t)
			{
				if (cls[t] < 0) continue;
				while (tokenEnabled(net.T[t], m))
				{
					fire(net.T[t], m);
					++firings[cls[t]];
					any = true;
				}
			}
		}
	}
	int marker(int c) const
	{
		return nPlain + c;
	}
};

inline Persist persistNet(Rng &r, int maxPlaces, int maxClasses, int fuelMax, bool reqNo)
{
	Persist g;
	const int nP = (int)r.range(1, maxPlaces);
	const int nC = (int)r.range(1, std::min(maxClasses, nP));
	g.nPlain = nP;
	g.nClasses = nC;
	const bool chain = r.chance(1, 3);
	for (int i = 0; i < nP; ++i)
	{
		PlaceS p;
		p.name = "P" + std::to_string(i);
		p.init = chain ? (i == 0 ? 1 + r.below(3) : 0) : r.below(5);
		p.enter = r.chance(1, 4);
		p.exit = r.chance(1, 4);
		p.input = i == 0 || r.chance(1, 3);
		p.named = r.chance(1, 3);
		if (p.input) g.inputs.push_back(i);
		g.net.P.push_back(p);
	}
	for (int c = 0; c < nC; ++c)
	{
		PlaceS p;
		p.name = "M" + std::to_string(c);
		p.enter = true;
		p.exit = false;
		g.net.P.push_back(p);
	}
	for (int c = 0; c < nC; ++c)
	{
		PlaceS p;
		p.name = "F" + std::to_string(c);
		p.init = r.chance(1, 5) ? r.below(fuelMax * 4) : r.below(fuelMax);
		p.enter = p.exit = false;
		g.net.P.push_back(p);
	}
	// distribute the plain places over the classes
	std::vector<int> owner(nP);
	for (int i = 0; i < nP; ++i) owner[i] = i < nC ? i : (int)r.below(nC + 1); // nC: consumed by none
	std::vector<TransS> classes(nC);
	for (int c = 0; c < nC; ++c)
	{
		TransS &t = classes[c];
		for (int i = 0; i < nP; ++i)
			if (owner[i] == c) t.act.push_back({ i, 1 + r.below(r.chance(1, 3) ? 3 : 1) });
		t.act.push_back({ nP + nC + c, 1 });
		r.shuffle(t.act);
		t.dest.push_back({ nP + c, 1 });
		if (chain)
		{
			if (c + 1 < nP) t.dest.push_back({ c + 1, 1 + r.below(2) });
		}
		else
		{
			std::vector<int> idx(nP);
			for (int i = 0; i < nP; ++i) idx[i] = i;
			r.shuffle(idx);
			const int n = (int)r.below(std::min(nP, 3) + 1);
			for (int i = 0; i < n; ++i) t.dest.push_back({ idx[i], 1 + r.below(2) });
		}
		r.shuffle(t.dest);
		t.reqNo = reqNo && r.chance(1, 3);
	}
	auto add = [&](const TransS &t, int c)
	{
		TransS x = t;
		x.name = (c < 0 ? "N" : "T") + std::to_string(g.net.T.size());
		g.net.T.push_back(x);
		g.cls.push_back(c);
	};
	for (int c = 0; c < nC; ++c)
	{
		const int copies = r.chance(1, 3) ? (int)r.range(2, 4) : 1;
		for (int k = 0; k < copies; ++k) add(classes[c], c);
		// enabled, but never allowed by its condition
		if (r.chance(1, 2))
		{
			TransS t = classes[r.below(nC)];
			t.guards = { 0 };
			add(t, -1);
		}
	}
	return g;
}
} // namespace game
