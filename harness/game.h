#pragma once
// Reference token game, random nets, building a net in an engine, replay oracle.
#include "vh.h"
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>

namespace game
{
using ptne::ArcProperties;
using ptne::PTN_Engine;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using vh::Rng;

inline const char *modeName(Mode m)
{
	switch (m)
	{
	case Mode::SINGLE_THREAD: return "SINGLE_THREAD";
	case Mode::EVENT_LOOP: return "EVENT_LOOP";
	case Mode::DETACHED: return "DETACHED";
	case Mode::JOB_QUEUE: return "JOB_QUEUE";
	}
	return "?";
}

struct ArcS
{
	int place = 0;
	size_t w = 1;
	bool operator==(const ArcS &) const = default;
};

struct PlaceS
{
	std::string name;
	size_t init = 0;
	bool enter = true;  //!< has an on-enter action
	bool exit = true;   //!< has an on-exit action
	bool input = false;
	bool named = false; //!< actions registered by name
};

struct TransS
{
	std::string name;
	std::vector<ArcS> act, dest, inh;
	std::vector<int> guards; //!< ids of guard functions
	bool reqNo = false;
	bool namedGuards = false;
};

struct NetS
{
	std::vector<PlaceS> P;
	std::vector<TransS> T;
};

using Marking = std::vector<size_t>;

inline Marking initial(const NetS &n)
{
	Marking m;
	for (auto &p : n.P) m.push_back(p.init);
	return m;
}

inline bool tokenEnabled(const TransS &t, const Marking &m)
{
	for (auto &a : t.inh)
		if (m[a.place] > 0) return false;
	for (auto &a : t.act)
		if (m[a.place] < a.w) return false;
	return true;
}

//! returns false if the firing would overflow a destination
inline bool fire(const TransS &t, Marking &m)
{
	for (auto &a : t.act)
		m[a.place] = a.w == 0 ? 0 : m[a.place] - a.w;
	for (auto &a : t.dest)
	{
		if (a.w > SIZE_MAX - m[a.place]) return false;
		m[a.place] += a.w;
	}
	return true;
}

inline std::string show(const NetS &n)
{
	std::ostringstream o;
	o << "P{";
	for (auto &p : n.P)
		o << p.name << "=" << p.init << (p.input ? "i" : "") << (p.enter ? "" : "!e") << (p.exit ? "" : "!x") << " ";
	o << "} T{";
	auto arcs = [&](const std::vector<ArcS> &v)
	{
		for (size_t i = 0; i < v.size(); ++i)
			o << (i ? "," : "") << n.P[v[i].place].name << ":" << v[i].w;
	};
	for (auto &t : n.T)
	{
		o << t.name << "[";
		arcs(t.act);
		o << ">";
		arcs(t.dest);
		if (!t.inh.empty())
		{
			o << "|!";
			arcs(t.inh);
		}
		for (int g : t.guards) o << " g" << g;
		if (t.reqNo) o << " rq";
		o << "] ";
	}
	o << "}";
	return o.str();
}

inline std::string show(const Marking &m)
{
	std::ostringstream o;
	o << "(";
	for (size_t i = 0; i < m.size(); ++i) o << (i ? "," : "") << m[i];
	o << ")";
	return o.str();
}

inline uint64_t hashNet(const NetS &n)
{
	uint64_t h = n.P.size();
	for (auto &p : n.P) h = vh::hcomb(h, p.init * 8 + p.enter * 4 + p.exit * 2 + p.input);
	auto arcs = [&](const std::vector<ArcS> &v)
	{
		h = vh::hcomb(h, v.size() + 77);
		for (auto &a : v) h = vh::hcomb(vh::hcomb(h, a.place), a.w);
	};
	for (auto &t : n.T)
	{
		arcs(t.act);
		arcs(t.dest);
		arcs(t.inh);
		h = vh::hcomb(h, t.guards.size() * 2 + t.reqNo);
	}
	return h;
}

//! Names: mostly plain, sometimes hostile (but never with line breaks unless asked for).
inline std::string makeName(Rng &r, const char *prefix, int i, int style)
{
	const std::string base = prefix + std::to_string(i);
	switch (style)
	{
	default: return base;
	case 1: return base + std::string(1 + r.below(300), 'x');
	case 2: return "pl\xC3\xA4tz \xE2\x82\xAC " + base + " <&\"'>";
	case 3: return std::string(1, (char)('!' + r.below(90))) + " " + base;
	case 4: return base + std::string(1 + i % 5, ' ');
	case 5: return std::to_string(i); // equal names of places and transitions
	case 6: return base + "; Tokens: " + std::to_string(r.below(9));
	}
}

struct GenOpts
{
	int minP = 1, maxP = 7;
	int minT = 1, maxT = 8;
	int maxArcs = 3;
	bool markers = true;       //!< every transition puts a token on a private place
	bool allActions = false;   //!< every place has both actions
	bool inhibitors = true;
	bool inhibitInputs = true; //!< input places may be inhibitors
	bool bigWeights = true;
	bool resets = true;
	bool guards = true;
	int numGuards = 6;
	bool reqNo = true;
	bool reqNoOften = false;
	int nameStyle = -1;
};

//! The marker place of transition t is place index nPlain + t.
struct Gen
{
	NetS net;
	int nPlain = 0;
};

inline Gen randomNet(Rng &r, const GenOpts &o)
{
	Gen g;
	const int nP = (int)r.range(o.minP, o.maxP), nT = (int)r.range(o.minT, o.maxT);
	g.nPlain = nP;
	const int style = o.nameStyle >= 0 ? o.nameStyle : (r.chance(1, 4) ? (int)r.below(7) : 0);
	// a scale of token counts: small, around byte/word boundaries, or near 2^64
	const bool big = o.bigWeights && r.chance(1, 5);
	static const size_t bigs[] = { 255, 256, 257, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull,
								   0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull };
	const size_t W = big ? bigs[r.below(std::size(bigs))] : 1;
	for (int i = 0; i < nP; ++i)
	{
		PlaceS p;
		p.name = makeName(r, "P", i, style);
		p.init = r.chance(1, 2) ? r.below(6) : r.below(2);
		p.enter = o.allActions || r.chance(3, 4);
		p.exit = o.allActions || r.chance(3, 4);
		p.input = r.chance(1, 2);
		p.named = r.chance(1, 3);
		g.net.P.push_back(p);
	}
	if (big)
	{
		g.net.P[r.below(nP)].init = W; // the sum over all places stays below 2^64, see below
		if (W < 0x100000000ull)
			g.net.P[r.below(nP)].init = W * (1 + r.below(3));
	}
	for (int t = 0; t < nT; ++t)
	{
		TransS tr;
		tr.name = makeName(r, style == 5 ? "" : "T", t, style);
		std::vector<int> idx(nP);
		for (int i = 0; i < nP; ++i) idx[i] = i;
		auto arcs = [&](int n, bool dest)
		{
			std::vector<ArcS> v;
			r.shuffle(idx);
			for (int i = 0; i < n && i < nP; ++i)
				v.push_back({ idx[i], dest ? 1 + r.below(r.chance(1, 3) ? 4 : 2) : 1 + r.below(r.chance(1, 3) ? 5 : 2) });
			return v;
		};
		tr.act = arcs(r.chance(1, 12) ? 0 : (int)r.range(1, o.maxArcs), false);
		tr.dest = arcs((int)r.range(0, o.maxArcs), true);
		if (tr.act.empty() && tr.dest.empty() && !o.markers) tr.dest = arcs(1, true);
		if (o.inhibitors && r.chance(1, 3)) tr.inh = arcs((int)r.range(1, 2), false);
		if (!o.inhibitInputs)
			std::erase_if(tr.inh, [&](auto &a) { return g.net.P[a.place].input; });
		if (o.resets && !tr.act.empty() && r.chance(1, 10)) tr.act[r.below(tr.act.size())].w = 0;
		if (big && !tr.act.empty() && !tr.dest.empty() && r.chance(1, 2))
		{
			// token conserving: at most what it takes
			tr.act[0].w = W;
			tr.dest[0].w = r.chance(1, 2) ? W : 1 + r.below(W);
			for (size_t i = 1; i < tr.dest.size(); ++i) tr.dest[i].w = 1;
		}
		if (o.guards && r.chance(1, 3))
		{
			const int n = (int)r.range(1, 4);
			for (int i = 0; i < n; ++i) tr.guards.push_back((int)r.below(o.numGuards));
		}
		tr.reqNo = o.reqNo && (o.reqNoOften ? r.chance(4, 5) : r.chance(1, 4));
		tr.namedGuards = r.chance(1, 2);
		g.net.T.push_back(tr);
	}
	if (o.markers)
	{
		for (int t = 0; t < nT; ++t)
		{
			PlaceS p;
			p.name = makeName(r, "M", t, style == 5 ? 0 : style);
			p.enter = true;
			p.exit = false;
			g.net.P.push_back(p);
			auto &d = g.net.T[t].dest;
			d.insert(d.begin() + (long)r.below(d.size() + 1), ArcS{ nP + t, 1 });
		}
	}
	return g;
}

struct Callbacks
{
	std::function<ptne::ActionFunction(int)> enter, exit;      //!< by place index
	std::function<ptne::ConditionFunction(int, int)> guard;   //!< by transition index and guard position
};

inline std::vector<ArcProperties> toArcs(const NetS &n, const std::vector<ArcS> &v, ArcProperties::Type type)
{
	std::vector<ArcProperties> r;
	for (auto &a : v) r.push_back({ .weight = a.w, .placeName = n.P[a.place].name, .transitionName = "", .type = type });
	return r;
}

inline void buildPlace(PTN_Engine &e, const NetS &n, int i, const Callbacks &cb)
{
	const PlaceS &p = n.P[i];
	ptne::PlaceProperties pp;
	pp.name = p.name;
	pp.initialNumberOfTokens = p.init;
	pp.input = p.input;
	if (p.enter)
	{
		if (p.named)
		{
			pp.onEnterActionFunctionName = "enter " + p.name;
			e.registerAction(pp.onEnterActionFunctionName, cb.enter(i));
		}
		else
			pp.onEnterAction = cb.enter(i);
	}
	if (p.exit)
	{
		if (p.named)
		{
			pp.onExitActionFunctionName = "exit " + p.name;
			e.registerAction(pp.onExitActionFunctionName, cb.exit(i));
		}
		else
			pp.onExitAction = cb.exit(i);
	}
	e.createPlace(pp);
}

//! r != nullptr: part of the arcs are added later through addArc. Arc order is kept per list.
inline void buildTransition(PTN_Engine &e, const NetS &n, int i, const Callbacks &cb, Rng *r)
{
	const TransS &t = n.T[i];
	ptne::TransitionProperties tp;
	tp.name = t.name;
	tp.requireNoActionsInExecution = t.reqNo;
	for (size_t k = 0; k < t.guards.size(); ++k)
	{
		if (t.namedGuards)
		{
			const std::string gn = "guard " + t.name + " " + std::to_string(k);
			e.registerCondition(gn, cb.guard(i, (int)k));
			tp.additionalConditionsNames.push_back(gn);
		}
		else
			tp.additionalConditions.push_back(cb.guard(i, (int)k));
	}
	const bool zero = std::any_of(t.act.begin(), t.act.end(), [](auto &a) { return a.w == 0; });
	const bool later = zero || (r && r->chance(1, 4));
	auto A = toArcs(n, t.act, ArcProperties::Type::ACTIVATION);
	auto D = toArcs(n, t.dest, ArcProperties::Type::DESTINATION);
	auto I = toArcs(n, t.inh, ArcProperties::Type::INHIBITOR);
	if (!later)
	{
		tp.activationArcs = A;
		tp.destinationArcs = D;
		tp.inhibitorArcs = I;
		e.createTransition(tp);
		return;
	}
	e.createTransition(tp);
	auto add = [&](std::vector<ArcProperties> &v)
	{
		for (auto &a : v)
		{
			a.transitionName = t.name;
			e.addArc(a);
		}
	};
	// a bidirectional arc where the lists allow it
	if (r && !A.empty() && !D.empty() && A[0].placeName == D[0].placeName && A[0].weight == D[0].weight && A[0].weight > 0)
	{
		ArcProperties b = A[0];
		b.type = ArcProperties::Type::BIDIRECTIONAL;
		b.transitionName = t.name;
		e.addArc(b);
		A.erase(A.begin());
		D.erase(D.begin());
	}
	add(D);
	add(I);
	add(A);
}

inline void build(PTN_Engine &e, const NetS &n, const Callbacks &cb, Rng *r = nullptr)
{
	std::vector<int> o(n.P.size());
	for (size_t i = 0; i < o.size(); ++i) o[i] = (int)i;
	if (r) r->shuffle(o);
	for (int i : o) buildPlace(e, n, i, cb);
	o.resize(n.T.size());
	for (size_t i = 0; i < o.size(); ++i) o[i] = (int)i;
	if (r) r->shuffle(o);
	for (int i : o) buildTransition(e, n, i, cb, r);
}

// ---------------------------------------------------------------------------------
// Replay of an event sequence

struct Event
{
	enum Kind : uint8_t
	{
		ENTER, //!< on-enter action caused by a firing
		EXIT,  //!< on-exit action caused by a firing
		INC    //!< a token added by incrementInputPlace (recorded by the harness)
	} kind;
	int place;
	bool operator==(const Event &) const = default;
};

inline std::string show(const NetS &n, const std::vector<Event> &ev, size_t from, size_t to)
{
	std::ostringstream o;
	for (size_t i = from; i < to && i < ev.size(); ++i)
		o << (ev[i].kind == Event::ENTER ? "+" : ev[i].kind == Event::EXIT ? "-" : "inc ") << n.P[ev[i].place].name << " ";
	return o.str();
}

struct ReplayResult
{
	bool ok = false;
	bool tooMany = false;          //!< too many hypotheses: inconclusive
	size_t stuckAt = 0;
	std::set<Marking> finals;      //!< possible final markings
	Marking lastGood;              //!< a marking at the point where the replay failed
	size_t firings = 0;            //!< in one explanation
};

//! Does the event sequence replay as a legal token game from m0?
//! guardTrue(t, position): are the guards of t true when `position` action events have happened?
//! The order of the exits among themselves and of the enters among themselves is not prescribed.
inline ReplayResult replay(const NetS &n,
                           const Marking &m0,
                           const std::vector<Event> &ev,
                           const std::function<bool(int, size_t)> &guardTrue,
                           size_t maxHyp = 64)
{
	struct Sig
	{
		std::vector<Event> exits, enters;
	};
	std::vector<Sig> sigs;
	for (auto &t : n.T)
	{
		Sig s;
		for (auto &a : t.act)
			if (n.P[a.place].exit) s.exits.push_back({ Event::EXIT, a.place });
		for (auto &a : t.dest)
			if (n.P[a.place].enter) s.enters.push_back({ Event::ENTER, a.place });
		auto less = [](const Event &a, const Event &b) { return a.place < b.place; };
		std::sort(s.exits.begin(), s.exits.end(), less);
		std::sort(s.enters.begin(), s.enters.end(), less);
		sigs.push_back(s);
	}
	ReplayResult res;
	std::map<size_t, std::map<Marking, size_t>> front; // position -> marking -> firings so far
	front[0][m0] = 0;
	res.lastGood = m0;
	auto segmentIs = [&](size_t pos, const std::vector<Event> &want)
	{
		if (pos + want.size() > ev.size()) return false;
		if (want.size() == 1) return ev[pos] == want[0];
		std::vector<Event> got(ev.begin() + (long)pos, ev.begin() + (long)(pos + want.size()));
		std::sort(got.begin(), got.end(), [](const Event &a, const Event &b) { return a.place < b.place; });
		return got == want;
	};
	while (!front.empty())
	{
		auto it = front.begin();
		const size_t pos = it->first;
		auto hyps = std::move(it->second);
		front.erase(it);
		if (hyps.size() > maxHyp)
		{
			res.tooMany = true;
			return res;
		}
		res.stuckAt = pos;
		if (pos == ev.size())
		{
			for (auto &[m, f] : hyps)
			{
				res.finals.insert(m);
				res.firings = f;
			}
			res.ok = true;
			return res;
		}
		for (auto &[m, f] : hyps)
		{
			res.lastGood = m;
			if (ev[pos].kind == Event::INC)
			{
				Marking m2 = m;
				if (m2[ev[pos].place] == SIZE_MAX) continue;
				++m2[ev[pos].place];
				front[pos + 1].emplace(m2, f);
				continue;
			}
			for (size_t t = 0; t < n.T.size(); ++t)
			{
				const Sig &s = sigs[t];
				const size_t len = s.exits.size() + s.enters.size();
				if (len == 0 || !segmentIs(pos, s.exits) || !segmentIs(pos + s.exits.size(), s.enters)) continue;
				if (!tokenEnabled(n.T[t], m)) continue;
				if (!guardTrue((int)t, pos)) continue;
				Marking m2 = m;
				if (!fire(n.T[t], m2)) continue;
				front[pos + len].emplace(m2, f + 1);
			}
		}
	}
	return res;
}

inline uint64_t hashEvents(const std::vector<Event> &ev)
{
	uint64_t h = ev.size();
	for (auto &e : ev) h = vh::hcomb(h, e.place * 4 + e.kind);
	return h;
}

inline Marking observe(const PTN_Engine &e, const NetS &n)
{
	Marking m;
	for (auto &p : n.P) m.push_back(e.getNumberOfTokens(p.name));
	return m;
}
} // namespace game
