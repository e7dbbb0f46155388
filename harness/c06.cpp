// C06 - every token move triggers its action exactly once, in every mode, also across stops,
// restarts and switches of the thread option.
#include "concrun.h"
using namespace game;
const char *vh_property = "C06";
static const Mode kModes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

// The four creation paths, all weights: one action per arc firing, one per accepted input, none otherwise.
static void oneByOne(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kModes[r.below(4)];
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(std::chrono::milliseconds(1));
	static const size_t ws[] = { 1, 2, 3, 7, 255, 256, 65536, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull };
	const size_t w = ws[r.below(10)], v = ws[r.below(10)];
	const size_t k = w > (1ull << 62) ? 1 : r.range(1, 6); // firings possible
	const size_t init = w * k + (r.chance(1, 2) ? 0 : r.below(w));
	std::atomic<long> inEnter{ 0 }, inExit{ 0 }, aEnter{ 0 }, aExit{ 0 }, bEnter{ 0 }, bExit{ 0 }, fires{ 0 };
	const bool overflow = (v > SIZE_MAX / k);
	const size_t vv = overflow ? 1 : v;
	std::ostringstream d;
	d << "one by one " << modeName(mode) << " w=" << w << " v=" << vv << " init=" << init;
	vh::describe(d.str());
	const bool named = r.chance(1, 2);
	auto place = [&](const std::string &n, size_t tokens, std::atomic<long> *en, std::atomic<long> *ex, bool input)
	{
		ptne::PlaceProperties p;
		p.name = n;
		p.initialNumberOfTokens = tokens;
		p.input = input;
		auto fe = [en]
		{
			vh::tick();
			++*en;
		};
		auto fx = [ex]
		{
			vh::tick();
			++*ex;
		};
		if (named)
		{
			p.onEnterActionFunctionName = "e" + n;
			p.onExitActionFunctionName = "x" + n;
			e.registerAction("e" + n, fe);
			e.registerAction("x" + n, fx);
		}
		else
		{
			p.onEnterAction = fe;
			p.onExitAction = fx;
		}
		e.createPlace(p);
	};
	place("in", 0, &inEnter, &inExit, true);
	place("a", init, &aEnter, &aExit, false);
	place("b", 0, &bEnter, &bExit, false);
	const size_t credit = r.range(1, 3);
	ptne::TransitionProperties tp;
	tp.name = "t";
	tp.activationArcs = { { .weight = credit, .placeName = "in" }, { .weight = w, .placeName = "a" } };
	tp.destinationArcs = { { .weight = vv, .placeName = "b" } };
	const bool gate = r.chance(1, 2);
	std::atomic<bool> open{ true };
	if (gate) tp.additionalConditions = { [&] { return open.load(); } };
	e.createTransition(tp);
	noise::configure(r.next(), (int)r.below(5), 10000);
	const long incs = r.range(0, 12);
	const bool before = r.chance(1, 2);
	long acc = 0;
	auto feed = [&]
	{
		for (long i = 0; i < incs; ++i)
		{
			if (r.chance(1, 5))
			{
				try
				{
					e.incrementInputPlace("a");
					vh::fail("accepted-invalid", "increment of a non-input place was accepted");
				}
				catch (const ptne::PTN_Exception &)
				{
				}
			}
			e.incrementInputPlace("in");
			++acc;
		}
	};
	if (before) feed();
	e.execute();
	if (!before) feed();
	const long expect = std::min<long>(acc / (long)credit, (long)k);
	if (mode == Mode::SINGLE_THREAD) e.execute();
	else
		vh::await([&] { return e.getNumberOfTokens("b") == vv * (size_t)expect; }, 15);
	auto settled = [&] { return inEnter == acc && inExit == expect && aExit == expect && bEnter == expect; };
	vh::await(settled, 15);
	e.stop();
	if (mode != Mode::SINGLE_THREAD) std::this_thread::sleep_for(std::chrono::milliseconds(2)); // room for superfluous ones
	noise::off();
	VH_CHECK(settled() && aEnter == 0 && bExit == 0, "actions",
			 "after " << acc << " inputs and " << expect << " firings: enter(in)=" << inEnter << " exit(in)=" << inExit << " exit(a)=" << aExit
					  << " enter(b)=" << bEnter << " enter(a)=" << aEnter << " exit(b)=" << bExit << " tokens b=" << e.getNumberOfTokens("b") << " "
					  << d.str());
	vh::count("one_by_one");
	if (expect) vh::distinct(vh::hcomb(vh::hcomb(w, vv), vh::hcomb(init, (uint64_t)mode * 100 + acc)));
}

// One transition with up to 80 arcs, made and removed in every way: each arc of a firing triggers its action once.
static void manyArcs(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kModes[r.below(4)];
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(std::chrono::milliseconds(1));
	const size_t k = r.range(1, r.chance(1, 8) ? 40 : 6); // firings
	const int n = (int)r.range(1, r.chance(1, 4) ? 80 : 12);
	struct Extra
	{
		std::string name;
		int how;
		size_t w, init, end;
		std::shared_ptr<std::atomic<long>> enter = std::make_shared<std::atomic<long>>(0), exit = std::make_shared<std::atomic<long>>(0);
		long wantEnter = 0, wantExit = 0;
	};
	static const char *const kHow[] = { "activation", "destination", "both", "added activation", "added destination", "bidirectional", "reset", "reset of a filled place", "removed activation",
										"removed destination", "removed bidirectional", "inhibitor", "reset and destination" };
	std::vector<Extra> x;
	std::ostringstream d;
	d << "many arcs " << modeName(mode) << " firings=" << k << ":";
	ptne::TransitionProperties tp{ .name = "t" };
	tp.requireNoActionsInExecution = r.chance(1, 4);
	using AT = ptne::ArcProperties::Type;
	for (int i = 0; i < n; ++i)
	{
		Extra p{ .name = "x" + std::to_string(i), .how = (int)r.below(13), .w = 1 + r.below(r.chance(1, 5) ? 1000000 : 3) };
		const bool enough = p.how == 0 || p.how == 2 || p.how == 3 || p.how == 5;
		const size_t spare = r.below(4);
		p.init = p.how == 11 ? 0 : p.how == 2 || p.how == 5 ? p.w + spare : enough ? p.w * k + spare : p.how == 6 ? 0 : spare + (p.how == 7);
		p.end = p.init;
		if (p.how == 0 || p.how == 3) p.end = p.init - p.w * k;
		if (p.how == 1 || p.how == 4) p.end = p.init + p.w * k;
		if (p.how == 6 || p.how == 7) p.end = 0;
		if (p.how == 12) p.end = p.w;
		if (p.how == 0 || p.how == 2 || p.how == 3 || p.how == 5 || p.how == 6 || p.how == 7 || p.how == 12) p.wantExit = (long)k;
		if (p.how == 1 || p.how == 2 || p.how == 4 || p.how == 5 || p.how == 12) p.wantEnter = (long)k;
		ptne::PlaceProperties q{ .name = p.name, .initialNumberOfTokens = p.init };
		if (r.chance(3, 4))
			q.onEnterAction = [a = p.enter] { vh::tick(); ++*a; };
		else
			p.wantEnter = 0;
		if (r.chance(3, 4))
			q.onExitAction = [a = p.exit] { vh::tick(); ++*a; };
		else
			p.wantExit = 0;
		e.createPlace(q);
		if (p.how == 0 || p.how == 2 || p.how == 8) tp.activationArcs.push_back({ .weight = p.w, .placeName = p.name });
		if (p.how == 1 || p.how == 2 || p.how == 9 || p.how == 12) tp.destinationArcs.push_back({ .weight = p.w, .placeName = p.name });
		if (p.how == 11) tp.inhibitorArcs.push_back({ .weight = p.w, .placeName = p.name });
		d << " " << kHow[p.how] << "*" << p.w;
		x.push_back(std::move(p));
	}
	vh::describe(d.str());
	std::atomic<long> ends{ 0 };
	e.createPlace({ .name = "fuel", .initialNumberOfTokens = k });
	e.createPlace({ .name = "fired" });
	tp.activationArcs.insert(tp.activationArcs.begin() + (long)r.below(tp.activationArcs.size() + 1), { .placeName = "fuel" });
	tp.destinationArcs.insert(tp.destinationArcs.begin() + (long)r.below(tp.destinationArcs.size() + 1), { .placeName = "fired" });
	e.createTransition(tp);
	for (auto &p : x)
	{
		auto arc = [&](AT type, size_t w) { return ptne::ArcProperties{ .weight = w, .placeName = p.name, .transitionName = "t", .type = type }; };
		if (p.how == 3) e.addArc(arc(AT::ACTIVATION, p.w));
		if (p.how == 4) e.addArc(arc(AT::DESTINATION, p.w));
		if (p.how == 5 || p.how == 10) e.addArc(arc(AT::BIDIRECTIONAL, p.w));
		if (p.how == 6 || p.how == 7 || p.how == 12) e.addArc(arc(AT::ACTIVATION, 0));
		if (p.how == 8) e.removeArc(arc(AT::ACTIVATION, p.w));
		if (p.how == 9) e.removeArc(arc(AT::DESTINATION, p.w));
		if (p.how == 10) e.removeArc(arc(AT::BIDIRECTIONAL, p.w));
	}
	noise::configure(r.next(), (int)r.below(5), 10000);
	e.execute();
	if (mode != Mode::SINGLE_THREAD) vh::await([&] { return e.getNumberOfTokens("fired") == k; }, 15);
	auto settled = [&] { return std::ranges::all_of(x, [](auto &p) { return *p.enter == p.wantEnter && *p.exit == p.wantExit; }); };
	vh::await(settled, 15);
	e.stop();
	if (mode != Mode::SINGLE_THREAD) std::this_thread::sleep_for(std::chrono::milliseconds(2));
	noise::off();
	VH_CHECK(e.getNumberOfTokens("fired") == k, "firings", e.getNumberOfTokens("fired") << " firings instead of " << k << " " << d.str());
	for (auto &p : x)
	{
		VH_CHECK(*p.enter == p.wantEnter && *p.exit == p.wantExit, "actions", p.name << " (" << kHow[p.how] << " * " << p.w << "): " << *p.enter << " on-enter actions instead of "
																	 << p.wantEnter << ", " << *p.exit << " on-exit actions instead of " << p.wantExit << " " << d.str());
		VH_CHECK(e.getNumberOfTokens(p.name) == p.end, "tokens", p.name << " holds " << e.getNumberOfTokens(p.name) << " instead of " << p.end << " " << d.str());
		vh::count(std::string("arcs: ") + kHow[p.how]);
	}
	vh::distinct(vh::hcomb(std::hash<std::string>{}(d.str()), 6));
}

// Many inputs while the first action is held, or slow: all their actions run in the end.
static void backlog(vh::Case &c, vh::Rng &r)
{
	const Mode mode = r.chance(4, 5) ? Mode::JOB_QUEUE : Mode::DETACHED;
	const long n = mode == Mode::DETACHED ? r.range(30, 150) : 1l << r.range(8, c.thorough ? 17 : 14);
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(std::chrono::hours(1));
	vh::Gate ran, release;
	std::atomic<long> exits{ 0 };
	const bool held = r.chance(2, 3);
	vh::describe(std::string("backlog of ") + std::to_string(n) + " actions " + modeName(mode));
	e.createPlace({ .name = "in",
					.onEnterAction =
					[&]
					{
						if (held) release.waitFor(1);
						vh::tick();
						ran.add();
					},
					.onExitAction = [&] { vh::tick(); ++exits; },
					.input = true });
	e.createPlace({ .name = "out" });
	e.createTransition({ .name = "t", .activationArcs = { { .placeName = "in" } }, .destinationArcs = { { .placeName = "out" } } });
	const bool running = r.chance(1, 2);
	if (running) e.execute();
	for (long i = 0; i < n; ++i) e.incrementInputPlace("in");
	if (running) VH_CHECK(vh::await([&] { return e.getNumberOfTokens("out") == (size_t)n; }, 60), "firings", e.getNumberOfTokens("out") << " of " << n << " firings with a backlog of actions");
	release.add();
	ran.waitFor(n);
	if (running)
	{
		vh::await([&] { return exits == n; }, 60);
		e.stop();
	}
	std::this_thread::sleep_for(std::chrono::milliseconds(1));
	VH_CHECK(ran.value() == n && exits == (running ? n : 0), "actions", ran.value() << " on-enter and " << exits << " on-exit actions for " << n << " inputs" << (running ? " and firings" : ""));
	vh::count("backlogs");
	vh::distinct(vh::hcomb((uint64_t)n, r.next()));
}

static void conc(vh::Case &c, vh::Rng &r)
{
	ConcRun::Options o;
	o.gen = ConcRun::defaults();
	o.gen.allActions = r.chance(1, 2);
	const int phases = (int)r.range(1, 5);
	o.modes.clear();
	for (int i = 0; i < phases; ++i) o.modes.push_back(kModes[r.below(4)]);
	if (r.chance(1, 2)) o.modes[0] = Mode::JOB_QUEUE;
	o.producers = (int)r.range(1, 4);
	o.incs = (int)r.range(3, c.thorough ? 150 : 50);
	o.toggles = r.chance(2, 3) ? (int)r.range(1, 8) : 0;
	o.fuel = r.below(250);
	for (auto m : o.modes)
		if (m == Mode::DETACHED) o.fuel = std::min<size_t>(o.fuel, 120);
	o.spreadUs = r.chance(1, 2) ? 0 : (int)r.below(80);
	o.slowActionsUs = r.chance(1, 2) ? 300 : 0;
	o.actionIncs = r.chance(1, 3) ? (int)r.below(20) : 0;
	vh::describe("building");
	ConcRun g(vh::Rng(r.next()), o);
	noise::configure(r.next(), (int)r.below(5), 60000);
	uint64_t h = hashNet(g.net);
	for (int i = 0; i < phases; ++i) g.runPhase(i, i + 1 == phases || r.chance(1, 4));
	if (g.actionCounts() != "") std::this_thread::sleep_for(std::chrono::milliseconds(500)); // runPhase gave up waiting
	const std::string bad = g.actionCounts();
	VH_CHECK(bad.empty(), "actions", bad << " in " << g.describe() << " end " << show(g.marking));
	noise::off();
	vh::count("actions_run", (uint64_t)g.actionsRun.load());
	vh::count("accepted_increments", (uint64_t)g.acceptedTotal());
	vh::count("firings", g.firings());
	vh::count("thread_option_switches", (uint64_t)phases - 1);
	for (auto m : o.modes) vh::count(std::string("phases_") + modeName(m));
	for (size_t v : g.marking) h = vh::hcomb(h, v);
	if (g.firings() > 0) vh::distinct(h);
	if (g.firings() > 10) vh::sample(g.describe() + " end " + show(g.marking));
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	if (c.index % 40 == 11)
		backlog(c, r);
	else if (r.chance(1, 5))
		manyArcs(c, r);
	else if (r.chance(1, 3))
		oneByOne(c, r);
	else
		conc(c, r);
}
