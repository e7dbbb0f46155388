#pragma once
// Random nets of named functions, as API models, and engines into which they can be imported.
#include "apimodel.h"

namespace api
{
//! Any bytes but NUL.
inline std::string anyName(Rng &r, const std::string &pre, int i, int style)
{
	const std::string base = pre + std::to_string(i);
	switch (style)
	{
	default: return base;
	case 1: return base + "<&>\"'";
	case 2: return "  " + base + "  ";
	case 3: return base + "\n\r\n\t\r" + base;
	case 4: return "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80" + base;
	case 5: return base + std::string(500 + r.below(3000), 'L');
	case 6: return "&amp;&#10;<![CDATA[" + base + "]]>";
	case 7: return std::to_string(i);
	case 8:
	{
		std::string s = base;
		for (int k = 1 + (int)r.below(12); k > 0; --k) s += (char)(1 + r.below(127));
		return s;
	}
	case 9: return r.chance(1, 2) ? "true" + base : "Activation" + base;
	case 10:
	{
		std::string s = base; // valid UTF-8 beyond ASCII
		for (int k = 1 + (int)r.below(8); k > 0; --k)
		{
			const int cp = (int)r.range(0x80, 0x7ff);
			s += (char)(0xC0 | cp >> 6);
			s += (char)(0x80 | (cp & 63));
		}
		return s;
	}
	case 11: return " ";
	}
}

inline const size_t tokenEdges[] = { 0, 1, 2, 9, 255, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, SIZE_MAX - 1, SIZE_MAX };

//! A random net of named functions only.
inline void makeNet(Api &a, Rng &r, bool runnable)
{
	const int style = r.chance(1, 2) ? 0 : -1;
	auto names = [&](const char *pre, int n)
	{
		std::vector<std::string> v;
		std::set<std::string> had;
		for (int i = 0; i < n; ++i)
		{
			auto s = anyName(r, pre, i, style == 0 ? 0 : (int)r.below(12));
			if (had.insert(s).second) v.push_back(s);
		}
		return v;
	};
	const bool large = r.chance(1, 30);
	const int nP = large ? 80 + (int)r.below(150) : (int)r.below(9), nT = large ? 60 + (int)r.below(100) : (int)r.below(8);
	auto P = names("p", nP), T = names("t", nT), A = names("a", 1 + (int)r.below(5)), C = names("c", 1 + (int)r.below(r.chance(1, 5) ? 16 : 6));
	if (r.chance(1, 5)) T = std::vector<std::string>(P.begin(), P.begin() + (long)std::min(P.size(), T.size()));
	for (auto &s : A) a.registerAction(s);
	for (auto &s : C) a.registerCondition(s, r.chance(3, 4));
	for (auto &s : P)
		a.createPlace(s, !runnable && r.chance(1, 2) ? tokenEdges[r.below(std::size(tokenEdges))] : r.below(4), r.chance(1, 2), r.chance(1, 2) ? r.pick(A) : "", r.chance(1, 2) ? r.pick(A) : "", false, false);
	for (auto &s : T)
	{
		auto arcs = [&](int n)
		{
			Api::ArcList l;
			std::set<std::string> had;
			for (int k = (int)r.below(n + 1); k > 0 && !P.empty(); --k)
			{
				auto &p = r.pick(P);
				if (had.insert(p).second) l.push_back({ p, !runnable && r.chance(1, 3) ? tokenEdges[1 + r.below(std::size(tokenEdges) - 1)] : 1 + r.below(3) });
			}
			return l;
		};
		std::vector<std::string> cn;
		for (int k = (int)r.below(r.chance(1, 6) ? 20 : 4); k > 0; --k)
		{
			auto &c = r.pick(C);
			if (!std::ranges::count(cn, c) || r.chance(1, 3)) cn.push_back(c); // a name may be listed twice
		}
		const int fan = r.chance(1, 8) ? 24 : 4;
		a.createTransition(s, arcs(fan), arcs(fan), arcs(fan / 2), cn, 0, r.chance(1, 3));
		if (P.empty()) continue;
		// reset and bidirectional arcs
		for (int k = (int)r.below(3); k > 0; --k)
		{
			auto &p = r.pick(P);
			auto &t = a.m.trans[s];
			if (r.chance(1, 2) && !t.act.contains(p)) a.addArc(p, s, Type::ACTIVATION, 0);
			else if (!t.act.contains(p) && !t.dest.contains(p)) a.addArc(p, s, Type::BIDIRECTIONAL, 1 + r.below(3));
		}
	}
	if (large) vh::count("large_nets");
}

//! An engine with the same names registered, for other functions.
inline std::unique_ptr<Api> twin(Api &a, Rng &r, Model &want)
{
	auto b = std::make_unique<Api>((Mode)r.below(4));
	b->nextId = a.nextId + 7;
	b->trail = "(import) " + a.trail;
	// other functions, registered in another order, besides others
	std::vector<std::string> an, cn;
	for (auto &[n, id] : a.m.actions) an.push_back(n);
	for (auto &[n, id] : a.m.conditions) cn.push_back(n);
	r.shuffle(an);
	r.shuffle(cn);
	if (r.chance(1, 2)) b->registerAction("not used by the net");
	for (auto &n : an) b->registerAction(n);
	for (auto &n : cn) b->registerCondition(n, a.fn->value[a.m.conditions[n]].load());
	want = a.m;
	want.actions = b->m.actions;
	want.conditions = b->m.conditions;
	want.sleep = b->m.sleep;
	want.running = false;
	want.calls = {};
	for (auto &[n, p] : want.places)
	{
		p.enter = p.enterName.empty() ? -1 : want.actions[p.enterName];
		p.exit = p.exitName.empty() ? -1 : want.actions[p.exitName];
	}
	for (auto &[n, t] : want.trans)
		for (size_t i = 0; i < t.conds.size(); ++i) t.conds[i] = want.conditions[t.condNames[i]];
	return b;
}
} // namespace api
