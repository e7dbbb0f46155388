// C21: registered functions are bound by name, exactly and permanently.
#include "apimodel.h"

const char *vh_property = "C21";
using namespace api;

namespace
{
std::string fname(Rng &r, const std::string &pre, int i, int style)
{
	switch (style)
	{
	default: return pre + std::to_string(i);
	case 1: return std::string((size_t)i % 40 + 1, 'f') + std::to_string(i / 40);
	case 2: return std::string(300, 'p') + std::to_string(i);   // long common prefix
	case 3: return std::to_string(i) + std::string(300, 's');   // long common suffix
	case 4: return Fuzzer::oddName(r, pre + std::to_string(i));
	case 5: return (i % 2 ? "fUnC" : "func") + std::to_string(i / 2); // differ in case only
	case 6: return "f" + std::string((size_t)i, ' ');           // differ in trailing spaces only
	case 7: return std::string("f\0", 2) + std::to_string(i);   // differ behind a NUL only
	}
}

void bind(vh::Case &c, Rng &r)
{
	Api a((Mode)r.below(4));
	const int style = (int)r.below(9);
	const int nF = r.chance(1, 6) ? 100 + (int)r.below(220) : 1 + (int)r.below(40);
	std::vector<std::string> an, cn;
	std::vector<int> order(nF);
	for (int i = 0; i < nF; ++i) order[i] = i;
	r.shuffle(order);
	const bool same = r.chance(1, 3); // actions and conditions share names
	std::set<std::string> had;
	for (int i : order)
	{
		const auto s = fname(r, "act", i, style);
		if (!had.insert(s).second) continue;
		an.push_back(s);
		cn.push_back(same ? s : fname(r, "cond", i, style));
	}
	std::sort(cn.begin(), cn.end());
	cn.erase(std::unique(cn.begin(), cn.end()), cn.end());
	r.shuffle(cn);
	size_t nextA = 0, nextC = 0;
	int nP = 0, nT = 0;
	const int steps = 15 + (int)r.below(40);
	auto registerSome = [&]
	{
		for (int k = 1 + (int)r.below(1 + an.size() / 3); k > 0 && nextA < an.size(); --k) a.registerAction(an[nextA++]);
		for (int k = 1 + (int)r.below(1 + cn.size() / 3); k > 0 && nextC < cn.size(); --k) a.registerCondition(cn[nextC++], r.chance(1, 2));
	};
	registerSome();
	auto anyA = [&]() -> std::string { return an[r.below(r.chance(1, 8) ? an.size() : std::max<size_t>(nextA, 1))]; };
	auto anyC = [&]() -> std::string { return cn[r.below(r.chance(1, 16) ? cn.size() : std::max<size_t>(nextC, 1))]; };
	for (int s = 0; s < steps; ++s)
	{
		switch (r.below(8))
		{
		case 0: registerSome(); break;
		case 1: // registered again: refused, and nothing changes
			a.registerAction(an[r.below(nextA ? nextA : 1)]);
			a.registerCondition(cn[r.below(nextC ? nextC : 1)], r.chance(1, 2));
			break;
		case 2:
		case 3:
		case 4:
			a.createPlace("P" + std::to_string(nP++), r.below(2), true, r.chance(4, 5) ? anyA() : "", r.chance(4, 5) ? anyA() : "", r.chance(1, 3), r.chance(1, 3));
			break;
		case 5:
		case 6:
		{
			std::vector<std::string> names;
			for (int k = (int)r.below(7); k > 0; --k)
			{
				auto x = anyC();
				if (!std::ranges::count(names, x)) names.push_back(x);
			}
			Api::ArcList act, dest;
			if (nP)
			{
				act.push_back({ "P" + std::to_string(r.below(nP)), 1 });
				if (r.chance(1, 2)) dest.push_back({ "P" + std::to_string(r.below(nP)), 1 });
			}
			a.createTransition("T" + std::to_string(nT++), act, dest, {}, names, names.empty() || r.chance(1, 3) ? 1 + (int)r.below(3) : 0, false, r.next());
			break;
		}
		case 7:
			if (r.chance(1, 5))
			{
				a.clearNet(); // the functions stay registered
				vh::count("cleared_nets");
			}
			break;
		}
		if (s % 6 == 0) a.compare();
	}
	a.compare("at the end");
	// what runs is what is bound
	for (auto &[n, p] : a.m.places) a.increment(n);
	a.settle();
	for (int k = 0; k < 3; ++k)
	{
		bool ran = false;
		for (int tries = 0; tries < 12 && !ran; ++tries)
		{
			for (auto &[n, t] : a.m.trans)
				for (int id : t.conds) a.fn->value[id] = r.chance(3, 4);
			// only some of the transitions
			for (auto &[n, t] : a.m.trans)
				if (!t.conds.empty() && r.chance(tries, 12)) a.fn->value[r.pick(t.conds)] = false;
			Model s = a.m;
			long f = 0;
			if (tries < 8 && (!a.simulate(s, f) || f == 0)) continue;
			ran = a.execute();
		}
		if (ran)
		{
			vh::count("runs");
			if (a.m.running) a.stop();
		}
		a.settle();
		a.compare("after a run");
	}
	vh::count("firings", (uint64_t)a.firings);
	vh::count("functions", (uint64_t)(nextA + nextC));
	if (nextA > 64) vh::count("nets_with_more_than_64_functions");
	vh::distinct(a.hash);
	if (c.index < 2) vh::sample(a.trail);
}

// All conditions are required, and evaluated with their current value.
void conditions(vh::Case &, Rng &r)
{
	const Mode mode = (Mode)r.below(4);
	Api a(mode);
	const bool many = r.chance(1, 12);
	const int k = many ? 6 + (int)r.below(140) : 1 + (int)r.below(5);
	const bool named = r.chance(1, 2);
	std::vector<std::string> names;
	const int extra = (int)r.below(10);
	for (int i = 0; i < extra; ++i) a.registerCondition("other" + std::to_string(i), r.chance(1, 2));
	if (named)
		for (int i = 0; i < k; ++i)
		{
			names.push_back(fname(r, "c", i, (int)r.below(4)) + std::to_string(i));
			a.registerCondition(names.back(), true);
		}
	r.shuffle(names);
	a.createPlace("I", 0, true, "", "", true, true);
	a.createPlace("O", 0, false, "", "", true, true);
	a.createTransition("T", { { "I", 1 } }, { { "O", 1 } }, {}, names, named ? 0 : k, r.chance(1, 4));
	const auto ids = a.m.trans["T"].conds;
	a.setSleep(1 + (long)r.below(5));
	if (many) vh::count("transitions_with_many_conditions");
	for (int round = 0; round < (many ? 1 : 3); ++round)
	{
		// every valuation; of many conditions all true, or false in one or some places
		const int n = many ? 40 : 1 << k;
		for (int bits = 0; bits < n; ++bits)
		{
			std::vector<bool> v(k, true);
			if (!many)
				for (int i = 0; i < k; ++i) v[i] = (bits >> i) & 1;
			else if (bits != 20 && bits != n - 1)
			{
				v[bits == 0 ? k - 1 : bits == 1 ? 0 : r.below(k)] = false;
				if (r.chance(1, 4)) v[r.below(k)] = false;
			}
			const bool all = !std::ranges::count(v, false);
			// not while an evaluation may be under way: it could see some old and some new values
			if (a.m.running) a.stop();
			for (int i = 0; i < k; ++i) a.fn->value[ids[i]] = v[i];
			if (mode == Mode::SINGLE_THREAD)
			{
				if (a.m.places["I"].tokens == 0) a.increment("I");
				VH_CHECK(a.execute(), "harness", "");
			}
			else
			{
				if (!a.m.running) a.execute();
				a.increment("I");
				// a pass or two with these values
				if (!all) std::this_thread::sleep_for(std::chrono::milliseconds(r.below(4)));
			}
			const size_t o = a.e->getNumberOfTokens("O");
			VH_CHECK(o == a.m.places["O"].tokens, "conditions", "valuation " << bits << " of " << k << ": O has " << o << " expected " << a.m.places["O"].tokens);
			vh::count(all ? "all_true" : "some_false");
		}
		if (a.m.running) a.stop();
		// in the next round tokens start as left over; flush them
		for (int i = 0; i < k; ++i) a.fn->value[ids[i]] = true;
		const size_t left = a.m.places["I"].tokens;
		if (left <= 50) VH_CHECK(a.execute(), "harness", "");
		if (left > 50) vh::error("too many tokens left");
	}
	if (a.m.running) a.stop();
	a.settle();
	a.compare();
	vh::distinct(vh::hcomb(vh::hcomb(a.hash, k), (uint64_t)mode));
}
// Conditions that many transitions name, and that their firings change: each looks at the current value.
void shared(vh::Case &, Rng &r)
{
	const bool single = r.chance(2, 3);
	const int nT = (int)r.range(2, 9), nC = (int)r.range(1, 3);
	const bool named = r.chance(3, 4), byExit = r.chance(1, 2);
	std::vector<std::atomic<long>> budget(nC);
	std::atomic<long> firings{ 0 };
	std::ostringstream d;
	d << (single ? "SINGLE_THREAD " : "EVENT_LOOP ") << nT << " transitions share " << nC << (named ? " named" : "") << " conditions, spent by " << (byExit ? "on-exit" : "on-enter") << " actions";
	vh::describe(d.str());
	ptne::PTN_Engine e(single ? Mode::SINGLE_THREAD : Mode::EVENT_LOOP);
	e.setEventLoopSleepDuration(std::chrono::milliseconds(1));
	const size_t tokens = (size_t)r.range(1, 30);
	auto cond = [&](int i) -> ptne::ConditionFunction { return [&budget, i] { return budget[i] > 0; }; };
	auto spend = [&]
	{
		for (auto &b : budget) --b;
		++firings;
	};
	for (int i = 0; i < nC; ++i)
	{
		budget[i] = (long)r.range(1, 12);
		if (named) e.registerCondition("cond" + std::to_string(i), cond(i));
	}
	long most = budget[0].load();
	for (auto &b : budget) most = std::min(most, b.load());
	ptne::PlaceProperties A{ .name = "A", .initialNumberOfTokens = tokens }, B{ .name = "B" };
	(byExit ? A.onExitAction : B.onEnterAction) = spend;
	e.createPlace(A);
	e.createPlace(B);
	for (int t = 0; t < nT; ++t)
	{
		ptne::TransitionProperties p{ .name = "T" + std::to_string(t), .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } };
		// every transition requires all of them, in an order of its own
		std::vector<int> order(nC);
		for (int i = 0; i < nC; ++i) order[i] = i;
		r.shuffle(order);
		for (int i : order)
			if (named)
				p.additionalConditionsNames.push_back("cond" + std::to_string(i));
			else
				p.additionalConditions.push_back(cond(i));
		p.requireNoActionsInExecution = r.chance(1, 4);
		e.createTransition(p);
	}
	const long expected = std::min<long>(most, (long)tokens);
	e.execute();
	if (!single)
	{
		VH_CHECK(vh::await([&] { return firings >= expected; }, 20), "conditions", firings << " of " << expected << " firings, " << d.str());
		std::this_thread::sleep_for(std::chrono::milliseconds(3));
		e.stop();
	}
	VH_CHECK(firings == expected && e.getNumberOfTokens("B") == (size_t)expected && e.getNumberOfTokens("A") == tokens - (size_t)expected, "conditions",
			 firings << " firings although the conditions are true until " << most << " firings have happened and there were " << tokens << " tokens, " << d.str());
	vh::count("nets_of_shared_conditions");
	vh::distinct(vh::hcomb(vh::hcomb(tokens, (uint64_t)most), (uint64_t)(nT * 64 + nC * 8 + named * 4 + byExit * 2 + single)));
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	if (c.index / 8 % 7 == 6)
		shared(c, r);
	else if (c.index % 3 == 2)
		conditions(c, r);
	else
		bind(c, r);
}
