// C08 - where actions run, and what they block.
#include "game.h"
#include "persist.h"
using namespace game;
const char *vh_property = "C08";
using namespace std::chrono_literals;
static const Mode kModes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

namespace
{
thread_local bool t_mine = false;     // a thread of the harness
thread_local int t_inCall = 0;        // inside an API call made by the harness
thread_local long t_loopRun = 0;      // this thread evaluated conditions of run number t_loopRun

struct Call
{
	Call()
	{
		++t_inCall;
	}
	~Call()
	{
		--t_inCall;
	}
};
} // namespace

// Where conditions and actions run.
static void placement(vh::Case &c, vh::Rng &r)
{
	t_mine = true;
	const int phases = (int)r.range(1, 4);
	std::vector<Mode> modes;
	std::string names;
	for (int i = 0; i < phases; ++i)
	{
		modes.push_back(kModes[r.below(4)]);
		names += std::string(modeName(modes.back())) + " ";
	}
	bool allAsync = true;
	for (auto m : modes) allAsync = allAsync && (m == Mode::JOB_QUEUE || m == Mode::DETACHED);
	Persist g = persistNet(r, 7, 5, 8, !allAsync && false);
	// input places get their tokens from inputs only, so that their actions are told apart from those of firings
	for (auto &t : g.net.T) std::erase_if(t.dest, [&](auto &a) { return g.net.P[a.place].input; });
	for (int i = 0; i < g.nPlain; ++i)
	{
		g.net.P[i].enter = r.chance(2, 3);
		g.net.P[i].exit = r.chance(2, 3);
	}
	// every transition evaluates a condition, so that the evaluating thread is known
	for (size_t t = 0; t < g.net.T.size(); ++t)
		if (g.cls[t] >= 0) g.net.T[t].guards.assign(r.chance(1, 4) ? (size_t)r.range(1, 12) : 1, 1);
	vh::describe(names + show(g.net));
	std::atomic<long> run{ 0 };
	std::atomic<int> syncDepth{ 0 };
	std::atomic<Mode> mode{ modes[0] };
	std::mutex idM;
	std::map<long, std::thread::id> loopId;
	std::atomic<long> guardsSeen{ 0 }, actionsSeen{ 0 };
	vh::Gate fired, incActions, otherActions;
	const std::thread::id mainId = std::this_thread::get_id();
	auto where = [&] { return names + "of " + show(g.net); };
	auto onGuard = [&]
	{
		++guardsSeen;
		if (mode == Mode::SINGLE_THREAD)
		{
			VH_CHECK(std::this_thread::get_id() == mainId && t_inCall > 0, "guard-thread",
					 "SINGLE_THREAD evaluated a condition outside the caller's execute() " << where());
			return;
		}
		VH_CHECK(!t_mine, "guard-thread", modeName(mode) << " evaluated a condition on a caller's thread " << where());
		if (mode == Mode::EVENT_LOOP) VH_CHECK(syncDepth == 0, "not-synchronous", "EVENT_LOOP evaluated a condition while an action of a firing ran " << where());
		t_loopRun = run;
		std::lock_guard l(idM);
		auto [it, fresh] = loopId.emplace(run.load(), std::this_thread::get_id());
		VH_CHECK(it->second == std::this_thread::get_id(), "two-loops", "conditions of one run were evaluated on two threads " << where());
	};
	auto onAction = [&](int p, bool enter)
	{
		++actionsSeen;
		const bool byInput = enter && p < g.nPlain && g.net.P[p].input;
		switch (mode.load())
		{
		case Mode::SINGLE_THREAD:
			VH_CHECK(t_mine && t_inCall > 0, "action-thread", "SINGLE_THREAD ran an action outside the call that triggered it " << where());
			break;
		case Mode::EVENT_LOOP:
			if (!byInput)
			{
				VH_CHECK(!t_mine, "action-thread", "EVENT_LOOP ran an action of a firing on a caller's thread " << where());
				VH_CHECK(t_loopRun == run, "action-thread", "EVENT_LOOP ran an action of a firing on another thread than the loop's " << where());
				VH_CHECK(++syncDepth == 1, "not-synchronous", "EVENT_LOOP ran two actions of firings at once " << where());
				if (vh::mix(actionsSeen) % 8 == 0) std::this_thread::sleep_for(50us);
				--syncDepth;
			}
			break;
		default:
			VH_CHECK(!t_mine, "action-thread", modeName(mode) << " ran an action on a caller's thread " << where());
			VH_CHECK(t_loopRun == 0, "action-thread", modeName(mode) << " ran an action on the loop's thread " << where());
		}
		vh::tick();
		if (byInput)
			incActions.add();
		else if (p >= g.nPlain)
			fired.add();
		else
			otherActions.add();
	};
	Callbacks cb;
	cb.enter = [&](int p) -> ptne::ActionFunction { return [&, p] { onAction(p, true); }; };
	cb.exit = [&](int p) -> ptne::ActionFunction { return [&, p] { onAction(p, false); }; };
	cb.guard = [&](int t, int i) -> ptne::ConditionFunction
	{
		return [&, v = g.net.T[t].guards[i] == 1]
		{
			onGuard();
			return v;
		};
	};
	PTN_Engine e(modes[0]);
	build(e, g.net, cb, &r);
	e.setEventLoopSleepDuration(r.chance(1, 2) ? std::chrono::milliseconds(3600000) : 1ms);
	Marking m = initial(g.net);
	std::vector<size_t> firings(g.nClasses, 0);
	long incs = 0;
	noise::configure(r.next(), (int)r.below(5), 30000);
	for (int i = 0; i < phases; ++i)
	{
		if (i)
		{
			Call k;
			mode = modes[i];
			e.setActionsThreadOption(modes[i]);
		}
		VH_CHECK(e.getActionsThreadOption() == modes[i], "option", "the thread option in use is not the one set " << where());
		++run;
		const bool threaded = modes[i] != Mode::SINGLE_THREAD;
		const bool first = threaded && r.chance(1, 2);
		if (first)
		{
			Call k;
			e.execute();
		}
		const int producers = (int)r.below(3);
		std::vector<std::thread> ts;
		std::vector<std::atomic<size_t>> acc(g.net.P.size());
		for (int p = 0; p < producers; ++p)
			ts.emplace_back(
			[&, rng = vh::Rng(r.next())]() mutable
			{
				t_mine = true;
				for (int k = 0; k < 8; ++k)
				{
					const int q = g.inputs[rng.below(g.inputs.size())];
					Call cc;
					e.incrementInputPlace(g.net.P[q].name);
					++acc[q];
				}
			});
		for (auto &t : ts) t.join();
		for (size_t p = 0; p < m.size(); ++p)
		{
			m[p] += acc[p];
			if (g.net.P[p].enter) incs += (long)acc[p];
		}
		if (!first)
		{
			Call k;
			e.execute();
		}
		g.runToEnd(m, firings);
		long total = 0, others = 0;
		for (size_t f : firings) total += (long)f;
		std::set<int> seen;
		for (size_t t = 0; t < g.net.T.size(); ++t)
		{
			if (g.cls[t] < 0 || !seen.insert(g.cls[t]).second) continue;
			for (auto &a : g.net.T[t].act) others += a.place < g.nPlain && g.net.P[a.place].exit ? (long)firings[g.cls[t]] : 0;
			for (auto &a : g.net.T[t].dest) others += a.place < g.nPlain && g.net.P[a.place].enter ? (long)firings[g.cls[t]] : 0;
		}
		fired.waitFor(total);
		incActions.waitFor(incs);
		otherActions.waitFor(others);
		{
			Call k;
			if (threaded) e.stop();
		}
		vh::count(std::string("placement_") + modeName(modes[i]));
	}
	noise::off();
	vh::count("conditions_located", (uint64_t)guardsSeen.load());
	vh::count("actions_located", (uint64_t)actionsSeen.load());
	if (actionsSeen > 0) vh::distinct(vh::hcomb(hashNet(g.net), vh::mix(phases * 31 + (int)modes[0])));
	if (actionsSeen > 30) vh::sample("placement " + where());
}

// A blocked action blocks nothing else.
static void blocked(vh::Case &c, vh::Rng &r)
{
	t_mine = true;
	const bool detached = r.chance(1, 2);
	const Mode mode = detached ? Mode::DETACHED : Mode::JOB_QUEUE;
	const bool switched = r.chance(1, 3);
	PTN_Engine e(switched ? Mode::EVENT_LOOP : mode);
	if (switched) e.setActionsThreadOption(mode);
	const bool hour = r.chance(1, 2);
	e.setEventLoopSleepDuration(hour ? std::chrono::milliseconds(3600000) : 1ms);
	const bool big = r.chance(1, 40);
	const int K = big ? (int)r.range(100, detached ? 160 : 4000) : (int)r.range(2, detached ? 24 : 6);
	const int how = (int)r.below(3); // 0: inputs, 1: firings into one place, 2: exit actions
	vh::Gate in, release, done, moved;
	std::atomic<int> inside{ 0 }, most{ 0 };
	auto action = [&]
	{
		const int k = ++inside;
		int o = most;
		while (k > o && !most.compare_exchange_weak(o, k))
			;
		in.add();
		release.waitFor(1);
		--inside;
		vh::tick();
		done.add();
	};
	std::ostringstream d;
	d << "blocked " << modeName(mode) << (switched ? " (switched to)" : "") << " K=" << K << " how=" << how << (hour ? " 1 h" : " 1 ms");
	vh::describe(d.str());
	ptne::PlaceProperties src{ .name = "src", .initialNumberOfTokens = (size_t)(how == 0 ? 0 : K), .input = how == 0 };
	ptne::PlaceProperties dst{ .name = "dst" };
	if (how == 0) src.onEnterAction = action;
	if (how == 1) dst.onEnterAction = action;
	if (how == 2) src.onExitAction = action;
	e.createPlace(src);
	e.createPlace(dst);
	e.createPlace({ .name = "poke", .input = true });
	e.createPlace({ .name = "poked" });
	e.createTransition({ .name = "move", .activationArcs = { { .placeName = "src" } }, .destinationArcs = { { .placeName = "dst" } } });
	std::atomic<bool> openGuard{ true };
	e.createTransition({ .name = "other",
						 .activationArcs = { { .placeName = "poke" } },
						 .destinationArcs = { { .placeName = "poked" } },
						 .additionalConditions = { [&] { return openGuard.load(); } } });
	noise::configure(r.next(), (int)r.below(5), 20000);
	e.execute();
	if (how == 0)
		for (int i = 0; i < K; ++i) e.incrementInputPlace("src"); // must return although the first action blocks
	in.waitFor(1);
	if (detached) in.waitFor(K); // any number of them at once: rendezvous
	VH_CHECK(vh::await([&] { return e.getNumberOfTokens("dst") == (size_t)K; }, 20), "blocked-net",
			 "with an action blocked, the transition that triggers it stopped firing: " << e.getNumberOfTokens("dst") << " of " << K << " " << d.str());
	// the net goes on
	const int pokes = (int)r.range(1, 5);
	for (int i = 0; i < pokes; ++i)
	{
		e.incrementInputPlace("poke");
		VH_CHECK(vh::await([&] { return e.getNumberOfTokens("poked") == (size_t)i + 1; }, 20), "blocked-net",
				 "with an action blocked, another transition did not fire " << d.str());
	}
	// the API goes on: a call that does not return leaves the run stuck
	std::ostringstream os;
	e.printState(os);
	e.getPlacesProperties();
	e.getTransitionsProperties();
	e.createPlace({ .name = "new" });
	e.createTransition({ .name = "newT", .activationArcs = { { .placeName = "new" } } });
	e.setEventLoopSleepDuration(2ms);
	e.getEventLoopSleepDuration();
	VH_CHECK(e.isEventLoopRunning(), "api", "not running " << d.str());
	e.stop();
	VH_CHECK(!e.isEventLoopRunning(), "api", "running after stop " << d.str());
	if (r.chance(1, 2))
	{
		e.execute();
		e.incrementInputPlace("poke");
		VH_CHECK(vh::await([&] { return e.getNumberOfTokens("poked") == (size_t)pokes + 1; }, 20), "blocked-net",
				 "with an action blocked, nothing fires after a restart " << d.str());
		e.stop();
	}
	VH_CHECK(done.value() == 0, "harness", "an action ended before its release");
	if (!detached)
		VH_CHECK(most == 1, "overlap", "JOB_QUEUE had " << most << " actions executing at once " << d.str());
	else
		VH_CHECK(most == K, "no-rendezvous", "DETACHED had only " << most << " of " << K << " actions executing at once " << d.str());
	release.add();
	done.waitFor(K);
	noise::off();
	vh::count(detached ? "blocked_detached" : "blocked_job_queue");
	vh::count("actions_blocked", (uint64_t)K);
	vh::distinct(vh::hcomb(vh::hcomb(K, how * 4 + detached * 2 + hour), r.next()));
}

// Actions that call the engine.
static void reentrant(vh::Case &c, vh::Rng &r)
{
	t_mine = true;
	const Mode mode = r.chance(1, 2) ? Mode::JOB_QUEUE : Mode::DETACHED;
	auto e = std::make_unique<PTN_Engine>(mode);
	e->setEventLoopSleepDuration(r.chance(1, 2) ? std::chrono::milliseconds(3600000) : 1ms);
	std::vector<int> ops;
	const int n = (int)r.range(1, 8);
	for (int i = 0; i < n; ++i) ops.push_back((int)r.below(15));
	std::ostringstream d;
	d << "actions calling the engine, " << modeName(mode) << " calls";
	for (int o : ops) d << " " << o;
	vh::describe(d.str());
	vh::Gate done, outs;
	std::atomic<int> next{ 0 };
	std::atomic<long> extraIn{ 0 };
	std::atomic<int> serial{ 0 };
	auto action = [&]
	{
		const int k = next++;
		if (k >= n)
		{
			return;
		}
		std::ostringstream os;
		const std::string s = std::to_string(serial++);
		auto throws = [&](auto f, const char *what)
		{
			bool t = false;
			try
			{
				f();
			}
			catch (const ptne::PTN_Exception &)
			{
				t = true;
			}
			(void)what;
			return t;
		};
		switch (ops[k])
		{
		case 0: e->getNumberOfTokens("in"); break;
		case 1: e->incrementInputPlace("other"); ++extraIn; break;
		case 2: e->printState(os); VH_CHECK(os.str().find("in: ") != std::string::npos, "api", "printState from an action: " << os.str()); break;
		case 3: VH_CHECK(e->getPlacesProperties().size() >= 3, "api", "getPlacesProperties from an action"); break;
		case 4: VH_CHECK(e->getTransitionsProperties().size() >= 2, "api", "getTransitionsProperties from an action"); break;
		case 5: e->createPlace({ .name = "np" + s }); break;
		case 6: e->createPlace({ .name = "nq" + s }); e->createTransition({ .name = "nt" + s, .activationArcs = { { .placeName = "nq" + s } } }); break;
		case 7: e->registerAction("a" + s, [] {}); break;
		case 8: e->registerCondition("c" + s, [] { return true; }); break;
		case 9: e->setEventLoopSleepDuration(3600000ms); e->getEventLoopSleepDuration(); break;
		case 10: e->isEventLoopRunning(); e->getActionsThreadOption(); break;
		case 11: throws([&] { e->incrementInputPlace("no such place"); }, "increment"); break;
		case 12:
			if (mode == Mode::JOB_QUEUE)
			{
				e->stop();
				e->execute();
			}
			break;
		case 13: throws([&] { e->execute(); }, "execute"); break;
		case 14: throws([&] { e->addArc({ .placeName = "in", .transitionName = "t", .type = ArcProperties::Type::INHIBITOR }); }, "addArc"); break;
		}
		vh::tick();
		done.add();
	};
	e->createPlace({ .name = "in", .onEnterAction = action, .input = true });
	e->createPlace({ .name = "out", .onEnterAction = [&] { outs.add(); } });
	e->createPlace({ .name = "other", .input = true });
	e->createTransition({ .name = "t", .activationArcs = { { .placeName = "in" } }, .destinationArcs = { { .placeName = "out" } } });
	e->createTransition({ .name = "u", .activationArcs = { { .placeName = "other" } }, .destinationArcs = { { .placeName = "out" } } });
	noise::configure(r.next(), (int)r.below(5), 20000);
	e->execute();
	for (int i = 0; i < n; ++i)
	{
		e->incrementInputPlace("in");
		if (r.chance(1, 2)) done.waitFor(i + 1);
	}
	done.waitFor(n);
	outs.waitFor(n + extraIn);
	noise::off();
	VH_CHECK(e->isEventLoopRunning(), "api", "not running after " << d.str());
	e->stop();
	vh::count("calls_made_by_actions", (uint64_t)n);
	uint64_t h = (uint64_t)mode;
	for (int o : ops) h = vh::hcomb(h, (uint64_t)o);
	vh::distinct(h);
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	const int k = (int)r.below(10);
	if (k < 5)
		placement(c, r);
	else if (k < 8)
		blocked(c, r);
	else
		reentrant(c, r);
}
