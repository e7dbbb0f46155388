// C03 - runs to quiescence and stops there.
#include "concrun.h"
#include "gamerun.h"
#include "persist.h"
using namespace game;
const char *vh_property = "C03";
using namespace std::chrono_literals;

static const Mode kThreaded[] = { Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

// The engine must get to the (unique) end without any stimulus: its watchdog period is one hour.
static void persistCase(vh::Case &c, vh::Rng &r)
{
	const Mode mode = r.chance(1, 4) ? Mode::SINGLE_THREAD : kThreaded[r.below(3)];
	const bool async = mode == Mode::JOB_QUEUE || mode == Mode::DETACHED;
	const bool big = r.chance(1, 6);
	Persist g = persistNet(r, big ? 40 : 8, big ? 30 : 6, mode == Mode::DETACHED ? 10 : 25, !async);
	vh::describe(std::string("persistent net ") + modeName(mode) + " " + show(g.net));
	vh::Gate fired;
	std::vector<std::atomic<long>> firedBy(g.nClasses);
	PTN_Engine e(mode);
	Callbacks cb;
	cb.enter = [&](int p) -> ptne::ActionFunction
	{
		if (p < g.nPlain || p >= g.nPlain + g.nClasses) return [] {};
		return [&, cl = p - g.nPlain]
		{
			++firedBy[cl];
			vh::tick();
			fired.add();
		};
	};
	cb.exit = [](int) -> ptne::ActionFunction { return [] {}; };
	cb.guard = [](int, int) -> ptne::ConditionFunction { return [] { return false; }; };
	build(e, g.net, cb, &r);
	e.setEventLoopSleepDuration(3600s);
	Marking m = initial(g.net);
	std::vector<size_t> firings(g.nClasses, 0);
	const int rounds = (int)r.range(1, 3);
	noise::configure(r.next(), (int)r.below(5), 30000);
	uint64_t h = hashNet(g.net);
	for (int k = 0; k < rounds; ++k)
	{
		const bool startFirst = r.chance(1, 2);
		if (mode != Mode::SINGLE_THREAD && startFirst) e.execute();
		const int producers = (int)r.below(4), incs = (int)r.below(12);
		std::vector<std::thread> ps;
		std::vector<std::atomic<size_t>> accepted(g.net.P.size());
		for (int i = 0; i < producers; ++i)
			ps.emplace_back(
			[&, rng = vh::Rng(r.next())]() mutable
			{
				for (int j = 0; j < incs; ++j)
				{
					const int p = g.inputs[rng.below(g.inputs.size())];
					e.incrementInputPlace(g.net.P[p].name);
					++accepted[p];
				}
			});
		for (auto &t : ps) t.join();
		for (size_t p = 0; p < m.size(); ++p) m[p] += accepted[p];
		if (mode == Mode::SINGLE_THREAD || !startFirst) e.execute();
		g.runToEnd(m, firings);
		long total = 0;
		for (size_t f : firings) total += (long)f;
		fired.waitFor(total); // a lost continuation leaves every thread asleep here
		if (mode != Mode::SINGLE_THREAD) e.stop();
		const Marking now = observe(e, g.net);
		VH_CHECK(now == m, "not-the-end", "the run ended with " << show(now) << " but the net's only end is " << show(m) << " of "
														  << show(g.net));
		for (int cl = 0; cl < g.nClasses; ++cl)
			if (mode != Mode::DETACHED)
				VH_CHECK((size_t)firedBy[cl] == firings[cl], "firings", "class " << cl << " fired " << firedBy[cl] << " times instead of "
																		 << firings[cl]);
		vh::count("persistent_runs");
		vh::count("firings_awaited", (uint64_t)total);
		for (size_t v : m) h = vh::hcomb(h, v);
	}
	noise::off();
	vh::distinct(h);
	if (fired.value() > 20) vh::sample(std::string(modeName(mode)) + " end " + show(m) + " of " + show(g.net));
}

// Random nets with conflicts, inhibitors and state dependent conditions: at rest nothing is fireable.
static void gameCase(vh::Case &c, vh::Rng &r)
{
	GameRun::Options o;
	o.mode = r.chance(3, 4) ? Mode::SINGLE_THREAD : kThreaded[r.below(3)];
	const bool threaded = o.mode != Mode::SINGLE_THREAD;
	o.gen.markers = true;
	if (!threaded && r.chance(1, 3))
	{
		o.gen.minP = 5;
		o.gen.maxP = 60;
		o.gen.minT = 20;
		o.gen.maxT = 150;
		o.gen.maxArcs = r.chance(1, 2) ? 3 : 10;
	}
	o.fuel = threaded ? 60 : 150;
	o.fuelPlace = r.chance(1, 2);
	GameRun g(vh::Rng(r.next()), o);
	if (threaded) noise::configure(r.next(), (int)r.below(5), 20000);
	uint64_t h = hashNet(g.net);
	for (int i = 0; i < 4; ++i)
	{
		vh::describe(g.describe());
		if (i) g.increments((int)r.range(1, 6));
		g.runAndCheck();
		h = vh::hcomb(h, hashEvents(g.lastEvents));
		vh::count("random_net_runs");
		// a second run at rest changes nothing
		if (r.chance(1, 3))
		{
			const Marking before = g.marking;
			g.runAndCheck();
			VH_CHECK(g.marking == before && g.lastEvents.empty(), "moved-at-rest", "execute() at rest moved tokens: " << show(before) << " to "
																						   << show(g.marking) << " of " << g.describe());
		}
	}
	if (g.firings) vh::distinct(h);
}

// Concurrent inputs into nets with conflicts.
static void concCase(vh::Case &c, vh::Rng &r)
{
	ConcRun::Options o;
	o.modes = { kThreaded[r.below(3)] };
	o.producers = (int)r.range(1, 4);
	o.incs = (int)r.range(5, 60);
	o.toggles = r.chance(1, 2) ? (int)r.range(1, 4) : 0;
	o.fuel = o.modes[0] == Mode::DETACHED ? 100 : 400;
	o.spreadUs = r.chance(1, 2) ? 0 : 40;
	o.invalidCalls = false;
	ConcRun g(vh::Rng(r.next()), o);
	noise::configure(r.next(), (int)r.below(5), 40000);
	g.runPhase(0, true);
	noise::off();
	const std::string q = g.quiescent();
	VH_CHECK(q.empty(), "not-quiescent", "the net came to rest although " << q << " of " << g.describe());
	vh::count("concurrent_runs");
	uint64_t h = hashNet(g.net);
	for (size_t v : g.marking) h = vh::hcomb(h, v);
	if (g.firings()) vh::distinct(h);
}

// Transitions and places created while the engine runs are taken up by the next evaluation.
static void createdCase(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kThreaded[r.below(3)];
	PTN_Engine e(mode);
	const bool watchdog = r.chance(1, 2);
	e.setEventLoopSleepDuration(watchdog ? 2ms : std::chrono::milliseconds(3600000));
	vh::describe(std::string("created while running ") + modeName(mode) + (watchdog ? " 2 ms" : " 1 h"));
	e.createPlace({ .name = "poke", .input = true });
	e.createTransition({ .name = "poked", .activationArcs = { { .placeName = "poke" } } });
	noise::configure(r.next(), (int)r.below(5), 20000);
	e.execute();
	vh::Gate fired;
	const int n = (int)r.range(1, 6);
	long expected = 0;
	std::vector<std::pair<std::string, size_t>> want;
	for (int i = 0; i < n; ++i)
	{
		if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
		const std::string s = std::to_string(i);
		const size_t tokens = 1 + r.below(6), w = 1 + r.below(2);
		e.createPlace({ .name = "from" + s, .initialNumberOfTokens = tokens });
		e.createPlace({ .name = "to" + s,
						.onEnterAction = [&] { fired.add(); } });
		e.createTransition({ .name = "move" + s,
							 .activationArcs = { { .weight = w, .placeName = "from" + s } },
							 .destinationArcs = { { .placeName = "to" + s } } });
		expected += (long)(tokens / w);
		want.push_back({ "to" + s, tokens / w });
		want.push_back({ "from" + s, tokens % w });
		if (!watchdog)
		{
			e.incrementInputPlace("poke");
			fired.waitFor(expected);
		}
	}
	if (watchdog)
		VH_CHECK(vh::await([&] { return fired.value() >= expected; }, 20), "created-not-fired",
				 "transitions created while the engine runs never fired: " << fired.value() << " of " << expected << " firings");
	e.stop();
	noise::off();
	for (auto &[p, k] : want)
		VH_CHECK(e.getNumberOfTokens(p) == k, "created-marking", p << " holds " << e.getNumberOfTokens(p) << " instead of " << k);
	vh::count("created_while_running", (uint64_t)n);
	vh::distinct(vh::hcomb(r.next(), n));
}

// A few transitions that can fire in a crowd of others that cannot: with tokens but a false condition, without tokens, or inhibited.
static void crowdCase(vh::Case &, vh::Rng &r)
{
	const Mode mode = r.chance(1, 3) ? Mode::SINGLE_THREAD : kThreaded[r.below(3)];
	const int crowd = (int)(r.chance(1, 2) ? r.range(10, 140) : r.range(1, 40) * 32 + r.range(-2, 3));
	const int chain = (int)r.range(1, 8), kinds = (int)r.range(1, 5);
	const size_t tokens = (size_t)r.range(1, 4);
	vh::describe(std::string("crowd ") + modeName(mode) + ": " + std::to_string(crowd) + " transitions that cannot fire, chain of " + std::to_string(chain) + ", tokens " + std::to_string(tokens));
	vh::Gate done;
	std::atomic<long> dull{ 0 };
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(3600s);
	e.registerCondition("never", [&] { ++dull; return false; });
	e.createPlace({ .name = "full", .initialNumberOfTokens = 3 });
	e.createPlace({ .name = "void" });
	for (int i = 0; i <= chain; ++i)
		e.createPlace({ .name = "c" + std::to_string(i), .initialNumberOfTokens = i == 0 ? tokens : 0, .onEnterAction = i == chain ? ptne::ActionFunction([&] { done.add(); }) : nullptr });
	// names and order of creation are mixed
	std::vector<int> order(crowd + chain);
	for (size_t i = 0; i < order.size(); ++i) order[i] = (int)i;
	r.shuffle(order);
	for (int i : order)
	{
		ptne::TransitionProperties t;
		t.name = std::string(1, (char)('a' + r.below(26))) + std::to_string(i);
		if (i >= crowd)
		{
			t.activationArcs = { { .placeName = "c" + std::to_string(i - crowd) } };
			t.destinationArcs = { { .placeName = "c" + std::to_string(i - crowd + 1) } };
			if (r.chance(1, 3)) t.additionalConditions = { [] { vh::tick(); return true; } };
			t.requireNoActionsInExecution = r.chance(1, 5);
		}
		else
			switch (i % kinds)
			{
			case 0: t.activationArcs = { { .placeName = "full" } }; t.additionalConditionsNames = { "never" }; break;
			case 1: t.activationArcs = { { .placeName = "full" }, { .placeName = "void" } }; break;
			case 2: t.activationArcs = { { .placeName = "full" } }; t.inhibitorArcs = { { .placeName = "full" } }; break;
			case 3: t.activationArcs = { { .weight = 4, .placeName = "full" } }; break;
			default: t.additionalConditionsNames = { "never" }; break;
			}
		e.createTransition(t);
	}
	e.execute();
	const std::string end = "c" + std::to_string(chain);
	if (mode == Mode::SINGLE_THREAD)
		VH_CHECK(e.getNumberOfTokens(end) == tokens, "gave-up", "execute() returned with " << e.getNumberOfTokens(end) << " of " << tokens << " tokens at the end of the chain, among " << crowd << " others");
	done.waitFor((long)tokens);
	if (mode != Mode::SINGLE_THREAD) e.stop();
	for (int i = 0; i < chain; ++i) VH_CHECK(e.getNumberOfTokens("c" + std::to_string(i)) == 0, "crowd-end", "c" << i << " holds " << e.getNumberOfTokens("c" + std::to_string(i)));
	VH_CHECK(e.getNumberOfTokens(end) == tokens && e.getNumberOfTokens("full") == 3 && e.getNumberOfTokens("void") == 0, "crowd-end", "end of the chain " << e.getNumberOfTokens(end));
	vh::count("crowds");
	vh::count("crowd_evaluations", (uint64_t)dull);
	vh::distinct(vh::hcomb(crowd * 64 + chain * 8 + kinds, tokens * 8 + (size_t)mode));
}

constexpr uint64_t kLongEvery = 250;

// Runs of very many passes: one firing per pass, the end known in advance.
static void longCase(vh::Case &c, vh::Rng &r)
{
	// every other one in SINGLE_THREAD mode, from 2^10 to 2^18 firings (2^21 in thorough runs)
	const uint64_t k = c.index / kLongEvery;
	const Mode mode = k % 2 == 0 ? Mode::SINGLE_THREAD : kThreaded[k / 2 % 3];
	const unsigned bits = k / 2 % 3 == 0 ? 17 : 10 + (unsigned)r.below(c.thorough ? 11 : 8);
	const size_t n = (1ull << bits) + r.below(1ull << bits);
	const size_t ring = (size_t)r.range(1, 4);
	vh::describe(std::string("long run ") + modeName(mode) + " of " + std::to_string(n) + " firings in a ring of " + std::to_string(ring));
	vh::Gate done;
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(3600s);
	e.createPlace({ .name = "fuel", .initialNumberOfTokens = n });
	e.createPlace({ .name = "count" });
	e.createPlace({ .name = "end", .onEnterAction = [&] { done.add(); } });
	e.createPlace({ .name = "waiting", .initialNumberOfTokens = 1 });
	for (size_t i = 0; i < ring; ++i) e.createPlace({ .name = "r" + std::to_string(i), .initialNumberOfTokens = i == 0 ? 1u : 0u });
	for (size_t i = 0; i < ring; ++i)
		e.createTransition({ .name = "t" + std::to_string(i),
							 .activationArcs = { { .placeName = "fuel" }, { .placeName = "r" + std::to_string(i) } },
							 .destinationArcs = { { .placeName = "r" + std::to_string((i + 1) % ring) }, { .placeName = "count" } },
							 .additionalConditions = { [] { vh::tick(); return true; } } });
	e.createTransition({ .name = "last",
						 .activationArcs = { { .placeName = "waiting" } },
						 .destinationArcs = { { .placeName = "end" } },
						 .inhibitorArcs = { { .placeName = "fuel" } } });
	e.execute();
	if (mode == Mode::SINGLE_THREAD)
		VH_CHECK(e.getNumberOfTokens("end") == 1, "gave-up", "execute() returned after " << e.getNumberOfTokens("count") << " of " << n << " firings");
	done.waitFor(1);
	if (mode != Mode::SINGLE_THREAD) e.stop();
	VH_CHECK(e.getNumberOfTokens("count") == n && e.getNumberOfTokens("fuel") == 0 && e.getNumberOfTokens("r" + std::to_string(n % ring)) == 1, "long-end",
			 "after " << n << " firings: count " << e.getNumberOfTokens("count") << ", fuel " << e.getNumberOfTokens("fuel"));
	vh::count("long_runs");
	vh::count("long_run_firings", n);
	vh::distinct(vh::hcomb(n, ring * 8 + (size_t)mode));
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	if (c.index % kLongEvery == kLongEvery / 2) return longCase(c, r);
	if (c.index % 16 == 3) return crowdCase(c, r);
	const int k = (int)r.below(20);
	if (k < 9)
		persistCase(c, r);
	else if (k < 15)
		gameCase(c, r);
	else if (k < 18)
		concCase(c, r);
	else
		createdCase(c, r);
}
