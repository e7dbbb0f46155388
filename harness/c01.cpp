// C01 - firing rule. Random nets in every thread option; the observed action sequence has to
// replay as a legal token game and to lead to exactly the observed marking.
#include "gamerun.h"
using namespace game;
const char *vh_property = "C01";

// One transition with many requirements (arcs, inhibitors, conditions), all of them met but one.
static void wide(vh::Case &, vh::Rng &r)
{
	const Mode mode = r.chance(2, 3) ? Mode::SINGLE_THREAD : r.chance(1, 2) ? Mode::EVENT_LOOP : r.chance(1, 2) ? Mode::JOB_QUEUE : Mode::DETACHED;
	const bool threaded = mode != Mode::SINGLE_THREAD;
	const int most = r.chance(1, 3) ? 300 : r.chance(1, 2) ? 70 : 12;
	const int nA = (int)r.range(1, most), nI = (int)r.range(0, most), nC = (int)r.range(0, most / 2), nD = (int)r.range(0, most);
	enum { NONE, TOKENS, INHIBITOR, CONDITION };
	int unmet = (int)r.below(4);
	if (unmet == INHIBITOR && !nI) unmet = TOKENS;
	if (unmet == CONDITION && !nC) unmet = TOKENS;
	const int at = (int)r.below((uint64_t)(unmet == INHIBITOR ? nI : unmet == CONDITION ? nC : nA));
	static const char *const kUnmet[] = { "nothing", "activation arc", "inhibitor arc", "condition" };
	std::ostringstream d;
	d << "wide " << modeName(mode) << " of " << nA << " activation, " << nI << " inhibitor, " << nD << " destination arcs and " << nC << " conditions; unmet: " << kUnmet[unmet] << " " << at;
	vh::describe(d.str());
	std::vector<std::atomic<bool>> value(nC);
	std::atomic<long> passes{ 0 };
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(std::chrono::milliseconds(1));
	std::vector<std::pair<std::string, size_t>> before, after;
	ptne::TransitionProperties t{ .name = "T" };
	for (int i = 0; i < nA; ++i)
	{
		const size_t w = r.chance(1, 8) ? 1ull << r.below(63) : 1 + r.below(3), spare = r.chance(1, 3) ? r.below(5) : 0;
		const std::string n = "A" + std::to_string(i);
		const bool isShort = unmet == TOKENS && i == at;
		const size_t have = isShort ? w - 1 : w + spare;
		e.createPlace({ .name = n, .initialNumberOfTokens = have, .input = true });
		t.activationArcs.push_back({ .weight = w, .placeName = n });
		before.push_back({ n, have });
		after.push_back({ n, isShort ? 0 : spare });
	}
	for (int i = 0; i < nI; ++i)
	{
		const std::string n = "I" + std::to_string(i);
		const size_t have = unmet == INHIBITOR && i == at ? (r.chance(1, 2) ? 1 : 1ull << r.below(64)) : 0;
		e.createPlace({ .name = n, .initialNumberOfTokens = have });
		t.inhibitorArcs.push_back({ .placeName = n });
		before.push_back({ n, have });
		after.push_back({ n, have });
	}
	for (int i = 0; i < nD; ++i)
	{
		const std::string n = "D" + std::to_string(i);
		const size_t w = 1 + r.below(9), have = r.below(3);
		e.createPlace({ .name = n, .initialNumberOfTokens = have });
		t.destinationArcs.push_back({ .weight = w, .placeName = n });
		before.push_back({ n, have });
		after.push_back({ n, have + w });
	}
	for (int i = 0; i < nC; ++i)
	{
		value[i] = !(unmet == CONDITION && i == at);
		t.additionalConditions.push_back([&, i] { return value[i].load(); });
	}
	// it fires once
	e.createPlace({ .name = "once", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "fired" });
	t.activationArcs.insert(t.activationArcs.begin() + (long)r.below(t.activationArcs.size() + 1), { .placeName = "once" });
	t.destinationArcs.insert(t.destinationArcs.begin() + (long)r.below(t.destinationArcs.size() + 1), { .placeName = "fired" });
	r.shuffle(t.activationArcs);
	r.shuffle(t.inhibitorArcs);
	r.shuffle(t.destinationArcs);
	e.createPlace({ .name = "always", .initialNumberOfTokens = 1 });
	e.createTransition({ .name = "probe", .activationArcs = { { .placeName = "always" } }, .additionalConditions = { [&] { ++passes; return false; } } });
	e.createTransition(t);
	auto compare = [&](bool fired)
	{
		VH_CHECK(e.getNumberOfTokens("fired") == (fired ? 1u : 0u), "firing-rule", "the transition has " << (fired ? "not fired although nothing is" : "fired although a requirement was") << " unmet, " << d.str());
		for (auto &[n, v] : fired ? after : before)
			VH_CHECK(e.getNumberOfTokens(n) == v, "token-effect", n << " holds " << e.getNumberOfTokens(n) << " instead of " << v << (fired ? " after" : " without") << " the firing, " << d.str());
	};
	e.execute();
	if (threaded)
	{
		const long p = passes;
		VH_CHECK(vh::await([&] { return passes >= p + 3; }, 30), "no-evaluation", "the running engine does not evaluate the net, " << d.str());
	}
	if (unmet == NONE && threaded) VH_CHECK(vh::await([&] { return e.getNumberOfTokens("fired") == 1; }, 20), "firing-rule", "the transition does not fire, " << d.str());
	if (unmet == NONE && threaded) e.stop();
	compare(unmet == NONE);
	vh::count(std::string("wide_unmet_") + (unmet == NONE ? "none" : unmet == TOKENS ? "tokens" : unmet == INHIBITOR ? "inhibitor" : "condition"));
	if (unmet == TOKENS || unmet == CONDITION)
	{
		// and now it is met
		if (unmet == TOKENS)
			e.incrementInputPlace("A" + std::to_string(at));
		else
			value[at] = true;
		if (!threaded)
			e.execute();
		else
		{
			VH_CHECK(vh::await([&] { return e.getNumberOfTokens("fired") == 1; }, 20), "firing-rule", "the transition does not fire once everything is met, " << d.str());
			e.stop();
		}
		compare(true);
	}
	vh::count("wide_transitions");
	vh::distinct(vh::hcomb(vh::hcomb(nA * 1000 + nI, nC * 1000 + nD), (uint64_t)at * 8 + unmet));
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	if (c.index / 8 % 8 == 3) return wide(c, r);
	GameRun::Options o;
	const int k = (int)r.below(20);
	o.mode = k < 11 ? Mode::SINGLE_THREAD : k < 15 ? Mode::EVENT_LOOP : k < 18 ? Mode::JOB_QUEUE : Mode::DETACHED;
	const bool threaded = o.mode != Mode::SINGLE_THREAD;
	o.gen.markers = r.chance(2, 3);
	o.gen.allActions = !o.gen.markers;
	if (!threaded && r.chance(1, 6))
	{
		o.gen.minP = 8;
		o.gen.maxP = 40;
		o.gen.minT = 10;
		o.gen.maxT = 60;
		o.gen.maxArcs = r.chance(1, 2) ? 4 : 12;
		o.gen.markers = true;
		o.gen.allActions = false;
	}
	o.fuel = threaded ? 40 : (r.chance(1, 4) ? 400 : 80);
	o.fuelPlace = r.chance(1, 2);
	vh::describe(std::string("building ") + modeName(o.mode));
	GameRun g(vh::Rng(r.next()), o);
	vh::describe(g.describe());
	if (threaded) noise::configure(r.next(), (int)r.below(5), 20000);
	const int rounds = (int)r.range(1, threaded ? 3 : 6);
	uint64_t h = hashNet(g.net);
	for (int i = 0; i < rounds; ++i)
	{
		vh::describe(g.describe());
		if (i > 0 || r.chance(1, 2)) g.increments((int)r.range(0, 5));
		g.runAndCheck();
		h = vh::hcomb(h, hashEvents(g.lastEvents));
		vh::count("runs");
	}
	vh::count("events", g.totalEvents());
	vh::count("firings", g.firings);
	vh::count("guard_evaluations", g.guardEvals);
	vh::count(std::string("cases_") + modeName(o.mode));
	if (g.firings > 0) vh::distinct(h);
	if (g.firings > 3)
		vh::sample(g.describe() + " last run: " + show(g.net, g.lastEvents, 0, 30));
}
