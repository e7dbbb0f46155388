// C09 - requireNoActionsInExecution gates firing on running on-enter actions of its own activation
// places, and only on those, without wedging.
#include "concrun.h"
#include "gamerun.h"
using namespace game;
const char *vh_property = "C09";
using namespace std::chrono_literals;

namespace
{
//! transition with requireNoActionsInExecution, its activation places' actions held on gates
struct Held
{
	vh::Rng &r;
	Mode mode;
	int n;
	std::vector<bool> has;                 //!< activation place has an on-enter action
	std::vector<bool> fed;                 //!< gets its tokens by a firing, not an input
	std::vector<size_t> w;
	vh::Gate passes;
	std::deque<vh::Gate> release, begun, ended;
	std::deque<std::atomic<long>> ticket;
	vh::Gate bystander;
	bool inhib;
	std::ostringstream d;
	long expect = 0; //!< actions triggered
	bool bystanderExit, bystanderDest;
	vh::Gate endedAll; //!< the last thing an action does
	PTN_Engine e;

	Held(vh::Rng &rng, Mode m)
	: r(rng)
	, mode(m)
	, e(m)
	{
		n = (int)r.range(1, 4);
		inhib = r.chance(1, 3);
		d << modeName(m) << " act";
		std::vector<ArcProperties> act, dest;
		for (int i = 0; i < n; ++i)
		{
			has.push_back(r.chance(3, 4));
			fed.push_back(r.chance(1, 3));
			w.push_back(1 + r.below(2));
			release.emplace_back();
			begun.emplace_back();
			ended.emplace_back();
			ticket.emplace_back(0);
		}
		if (std::none_of(has.begin(), has.end(), [](bool b) { return b; })) has[r.below(n)] = true;
		bystanderExit = mode == Mode::DETACHED && r.chance(1, 2);
		bystanderDest = mode == Mode::DETACHED && r.chance(1, 2);
		auto by = [this]
		{
			bystander.waitFor(1);
			endedAll.add();
		};
		for (int i = 0; i < n; ++i)
		{
			ptne::PlaceProperties p{ .name = name(i), .input = !fed[i] };
			if (has[i])
				p.onEnterAction = [this, i]
				{
							begun[i].add();
					{
						const size_t f = e.getNumberOfTokens("fired");
						release[i].waitFor(++ticket[i]);
						if (e.getNumberOfTokens("fired") != f)
							vh::fail("fired-during-action", "the transition fired between the begin and the end of an on-enter action of its activation place " +
															name(i) + ", " + d.str());
					}
					ended[i].add();
					endedAll.add();
				};
			if (bystanderExit) p.onExitAction = by;
			e.createPlace(p);
			if (fed[i])
			{
				e.createPlace({ .name = "feed" + name(i), .input = true });
				e.createTransition({ .name = "feeder" + name(i), .activationArcs = { { .placeName = "feed" + name(i) } }, .destinationArcs = { { .placeName = name(i) } } });
			}
			act.push_back({ .weight = w[i], .placeName = name(i) });
			d << " " << name(i) << ":" << w[i] << (has[i] ? "" : "!e") << (fed[i] ? "f" : "");
		}
		e.createPlace({ .name = "fired" });
		ptne::PlaceProperties dp{ .name = "dest" };
		if (bystanderDest) dp.onEnterAction = by;
		e.createPlace(dp);
		e.createPlace({ .name = "other", .onEnterAction = by, .input = true });
		e.createPlace({ .name = "inhib" });
		dest.push_back({ .placeName = "fired" });
		dest.push_back({ .placeName = "dest" });
		r.shuffle(act);
		r.shuffle(dest);
		ptne::TransitionProperties tp{ .name = "T", .activationArcs = act, .destinationArcs = dest, .requireNoActionsInExecution = true };
		if (inhib) tp.inhibitorArcs.push_back({ .placeName = "inhib" });
		e.createTransition(tp);
		e.createPlace({ .name = "sp", .initialNumberOfTokens = 1 });
		e.createTransition({ .name = "sentinel",
							 .activationArcs = { { .placeName = "sp" } },
							 .additionalConditions = { [this]
													   {
														   passes.add();
														   return false;
													   } } });
		e.setEventLoopSleepDuration(1ms);
	}
	static std::string name(int i)
	{
		return "A" + std::to_string(i);
	}

	//! wait until no action is left
	void quiet()
	{
		endedAll.waitFor(expect);
	}
	size_t fired() const
	{
		return e.getNumberOfTokens("fired");
	}
	void settle(int k = 6)
	{
		const long p = passes.value();
		if (e.isEventLoopRunning())
		{
			VH_CHECK(vh::await([&] { return passes.value() >= p + k; }, 30), "wedged", "the loop stopped evaluating, " << d.str());
		}
		else if (e.getActionsThreadOption() == Mode::SINGLE_THREAD)
			e.execute();
	}
	void put(int i)
	{
		e.incrementInputPlace(fed[i] ? "feed" + name(i) : name(i));
	}
};
} // namespace

// Actions held on gates while the net keeps being evaluated.
static void held(vh::Case &c, vh::Rng &r)
{
	const Mode mode = r.chance(1, 2) ? Mode::DETACHED : Mode::JOB_QUEUE;
	Held h(r, mode);
	vh::describe(h.d.str());
	noise::configure(r.next(), (int)r.below(5), 20000);
	h.e.execute();
	const int rounds = (int)r.range(1, 3);
	std::vector<long> put(h.n, 0);
	size_t want = 0;
	if (mode == Mode::DETACHED && r.chance(1, 2))
	{
		h.e.incrementInputPlace("other"); // held all along: does not count
		++h.expect;
	}
	for (int k = 0; k < rounds; ++k)
	{
		std::vector<int> order;
		for (int i = 0; i < h.n; ++i)
			for (size_t x = 0; x < h.w[i]; ++x) order.push_back(i);
		r.shuffle(order);
		// the place without held action get theirs first or in between
		for (int i : order)
		{
			h.put(i);
			++put[i];
			h.expect += h.has[i];
		}
		for (int i = 0; i < h.n; ++i)
			if (h.fed[i])
				VH_CHECK(vh::await([&] { return h.e.getNumberOfTokens(Held::name(i)) == h.w[i]; }, 30), "wedged", "a token did not arrive in " << i << " " << h.d.str());
		// JOB_QUEUE: the queued actions count as well
		if (mode == Mode::DETACHED)
			for (int i = 0; i < h.n; ++i)
				if (h.has[i]) h.begun[i].waitFor(put[i]);
		if (r.chance(1, 3))
		{
			h.e.stop();
			// the actions are still in execution after a stop, a restart or a change of the thread option
			const int s = (int)r.below(4);
			const Mode other = mode == Mode::DETACHED ? Mode::JOB_QUEUE : Mode::DETACHED;
			if (s == 1) h.e.setActionsThreadOption(Mode::EVENT_LOOP);
			if (s == 2) h.e.setActionsThreadOption(other);
			if (s == 3)
			{
				h.e.setActionsThreadOption(Mode::SINGLE_THREAD);
				h.e.execute();
				h.e.execute();
				VH_CHECK(h.fired() == want, "fired-during-action", "fired in SINGLE_THREAD while an on-enter action of an activation place was executing, " << h.d.str());
				vh::count("switched_to_single_thread");
			}
			if (s == 1 || s == 2)
			{
				h.e.execute();
				h.settle();
				VH_CHECK(h.fired() == want, "fired-during-action", "fired after a switch while an on-enter action of an activation place was executing, " << h.d.str());
				h.e.stop();
				vh::count("switched_while_held");
			}
			h.e.setActionsThreadOption(mode);
			h.e.execute();
		}
		// release one by one, in random order; JOB_QUEUE has to follow the order of the queue
		std::vector<int> rel;
		for (int i : order)
			if (h.has[i]) rel.push_back(i);
		if (mode == Mode::DETACHED) r.shuffle(rel);
		if (mode == Mode::JOB_QUEUE)
		{
			h.settle();
			VH_CHECK(h.fired() == want, "fired-during-action", "fired with an action of an activation place executing or queued, " << h.d.str());
			// release all but one place, check, then the last
			const int last = rel[r.below(rel.size())];
			for (int i = 0; i < h.n; ++i)
				if (i != last && h.has[i]) h.release[i].add(put[i] - h.release[i].value());
			h.settle();
			VH_CHECK(h.fired() == want, "fired-during-action", "fired with one action of an activation place executing or queued, " << h.d.str());
			h.release[last].add(put[last] - h.release[last].value());
		}
		else
		{
			for (size_t x = 0; x < rel.size(); ++x)
			{
				h.settle(4);
				VH_CHECK(h.fired() == want, "fired-during-action",
						 "fired with " << rel.size() - x << " on-enter actions of activation places executing, next to be released at " << Held::name(rel[x]) << ", " << h.d.str());
				const long before = h.ended[rel[x]].value();
				h.release[rel[x]].add();
				if (r.chance(1, 2)) h.ended[rel[x]].waitFor(before + 1);
			}
		}
		++want;
		h.expect += (h.bystanderExit ? h.n : 0) + (h.bystanderDest ? 1 : 0);
		VH_CHECK(vh::await([&] { return h.fired() == want; }, 20, [&] { return h.passes.value(); }, 1000), "never-fired",
				 "all on-enter actions of the activation places have finished, but the transition does not fire (fired " << h.fired() << " of " << want << "), " << h.d.str());
		vh::count("held_then_fired");
	}
	h.settle();
	VH_CHECK(h.fired() == want, "fired-too-often", h.d.str());
	h.bystander.add();
	h.e.stop();
	h.quiet();
	noise::off();
	vh::count(mode == Mode::DETACHED ? "held_detached" : "held_job_queue");
	vh::distinct(vh::hcomb(std::hash<std::string>()(h.d.str()), r.next()));
}

// JOB_QUEUE: actions of other places, exit actions and actions of destinations hold the queue, and do not count.
static void bystanders(vh::Case &c, vh::Rng &r)
{
	const Mode mode = r.chance(1, 2) ? Mode::DETACHED : Mode::JOB_QUEUE;
	vh::Gate in, release, out;
	auto block = [&]
	{
		in.add();
		release.waitFor(1);
		out.add();
	};
	PTN_Engine e(mode);
	const int how = (int)r.below(4); // which actions are held
	const int n = (int)r.range(1, 3), times = (int)r.range(1, 6);
	std::ostringstream d;
	d << "bystanders " << modeName(mode) << " how=" << how << " n=" << n << " times=" << times;
	vh::describe(d.str());
	std::vector<ArcProperties> act;
	for (int i = 0; i < n; ++i)
	{
		ptne::PlaceProperties p{ .name = Held::name(i), .initialNumberOfTokens = (size_t)times, .input = true };
		if (how == 1) p.onExitAction = block;
		e.createPlace(p);
		act.push_back({ .placeName = Held::name(i) });
	}
	ptne::PlaceProperties dest{ .name = "dest" }, inh{ .name = "inh", .input = true }, other{ .name = "other", .input = true };
	if (how == 2) dest.onEnterAction = block;
	if (how == 0) other.onEnterAction = block;
	if (how == 3) inh.onEnterAction = block;
	e.createPlace(dest);
	e.createPlace(inh);
	e.createPlace(other);
	e.createPlace({ .name = "sink" });
	e.createTransition({ .name = "T", .activationArcs = act, .destinationArcs = { { .placeName = "dest" } }, .inhibitorArcs = { { .placeName = "inh" } }, .requireNoActionsInExecution = true });
	e.createTransition({ .name = "drain", .activationArcs = { { .placeName = "inh" } }, .destinationArcs = { { .placeName = "sink" } } });
	e.setEventLoopSleepDuration(1ms);
	if (how == 0) e.incrementInputPlace("other");
	if (how == 3) e.incrementInputPlace("inh");
	noise::configure(r.next(), (int)r.below(5), 20000);
	e.execute();
	VH_CHECK(vh::await([&] { return e.getNumberOfTokens("dest") == (size_t)times; }, 20), "never-fired",
			 "fired only " << e.getNumberOfTokens("dest") << " of " << times << " times while actions were held that do not count: " << d.str());
	in.waitFor(1);
	e.stop();
	release.add();
	out.waitFor(how == 0 || how == 3 ? 1 : how == 1 ? (long)n * times : times);
	noise::off();
	vh::count("bystander_runs");
	vh::distinct(vh::hcomb(how * 100 + n * 10 + times, r.next()));
}

// Random nets in which nearly all transitions have the requirement, random concurrent input: the tokens of
// a transition do not change between the begin and the end of an action of its activation places.
static void stress(vh::Case &c, vh::Rng &r)
{
	ConcRun::Options o;
	o.gen = ConcRun::defaults();
	o.gen.maxP = 5;
	o.gen.maxT = 5;
	o.gen.reqNoOften = true;
	o.gen.bigWeights = false;
	o.fuelEach = true;
	o.fuel = 80;
	o.modes.clear();
	const int ph = (int)r.range(1, 2);
	for (int i = 0; i < ph; ++i) o.modes.push_back(r.chance(1, 2) ? Mode::JOB_QUEUE : Mode::DETACHED);
	o.producers = (int)r.range(1, 4);
	o.incs = (int)r.range(5, 30);
	o.spreadUs = (int)r.below(200);
	o.toggles = (int)r.below(3);
	o.slowActionsUs = (int)r.below(400);
	o.actionIncs = r.chance(1, 3) ? 10 : 0;
	static thread_local std::vector<std::pair<int, size_t>> seen;
	o.hook = [](ConcRun &run, int p, bool enter, bool begin)
	{
		if (!enter) return;
		if (begin)
		{
			seen.clear();
			for (size_t t = 0; t < run.net.T.size(); ++t)
				if (run.net.T[t].reqNo && std::any_of(run.net.T[t].act.begin(), run.net.T[t].act.end(), [&](auto &a) { return a.place == p; }))
					seen.push_back({ (int)t, run.engine->getNumberOfTokens(run.net.P[run.fuelOf[t]].name) });
			return;
		}
		for (auto &[t, f] : seen)
		{
			const size_t now = run.engine->getNumberOfTokens(run.net.P[run.fuelOf[t]].name);
			if (now != f)
				vh::fail("fired-during-action", run.net.T[t].name + " fired " + std::to_string(f - now) + " times between the begin and the end of an on-enter action of its activation place " +
												run.net.P[p].name + ", " + run.describe());
			vh::count("actions_watched");
		}
	};
	ConcRun run(Rng(r.next()), o);
	noise::configure(r.next(), (int)r.below(5), 20000);
	for (int i = 0; i < ph; ++i) run.runPhase(i, true);
	noise::off();
	const std::string q = run.quiescent(), s = run.stateEquation();
	VH_CHECK(q.empty(), "never-fired", q << " but does not fire although no action is executing, " << run.describe());
	VH_CHECK(s.empty(), "tokens", s << " " << run.describe());
	vh::count("stress_runs");
	vh::count("firings", run.firings());
	if (run.firings()) vh::distinct(vh::hcomb(hashNet(run.net), run.firings() * 31 + (uint64_t)run.acceptedTotal()));
	if (run.firings() > 20) vh::sample(run.describe());
}

// EVENT_LOOP: actions of inputs run on the producers' threads, against the loop's firings.
static void eventLoop(vh::Case &c, vh::Rng &r)
{
	const int nA = (int)r.range(1, 4), nT = (int)r.range(1, 3), producers = (int)r.range(1, 3), incs = (int)r.range(3, 20);
	PTN_Engine e(Mode::EVENT_LOOP);
	std::deque<std::atomic<long>> exits;
	for (int t = 0; t < nT; ++t) exits.emplace_back(0);
	std::vector<std::vector<int>> of(nA); // transitions with that activation place
	std::vector<std::vector<ArcProperties>> act(nT);
	for (int t = 0; t < nT; ++t)
		for (int a = 0; a < nA; ++a)
			if (r.chance(2, 3) || a == t % nA)
			{
				act[t].push_back({ .weight = 1 + r.below(2), .placeName = Held::name(a) });
				of[a].push_back(t);
			}
	const unsigned slow = (unsigned)r.below(200);
	std::ostringstream d;
	d << "EVENT_LOOP places=" << nA << " transitions=" << nT << " producers=" << producers << "x" << incs;
	for (auto &v : act)
	{
		d << " [";
		for (auto &a : v) d << a.placeName << ":" << a.weight << " ";
		d << "]";
	}
	vh::describe(d.str());
	std::atomic<long> actions{ 0 };
	for (int a = 0; a < nA; ++a)
		e.createPlace({ .name = Held::name(a),
						.onEnterAction =
						[&, a]
						{
							std::vector<long> f;
							for (int t : of[a]) f.push_back(exits[t]);
							if (slow) std::this_thread::sleep_for(std::chrono::microseconds(slow));
							for (size_t k = 0; k < of[a].size(); ++k)
								if (exits[of[a][k]] != f[k])
									vh::fail("fired-during-action", "T" + std::to_string(of[a][k]) + " fired between the begin and the end of an on-enter action of " +
																	Held::name(a) + ", " + d.str());
							++actions;
							vh::tick();
						},
						.input = true });
	const bool loops = r.chance(1, 2);
	for (int t = 0; t < nT; ++t)
	{
		const std::string fuel = "fuel" + std::to_string(t);
		e.createPlace({ .name = fuel, .initialNumberOfTokens = 200, .onExitAction = [&, t] { ++exits[t]; } });
		act[t].push_back({ .placeName = fuel });
		r.shuffle(act[t]);
		std::vector<ArcProperties> dest;
		if (loops && act[t].size() > 2) dest.push_back({ .placeName = act[t][0].placeName });
		e.createTransition({ .name = "T" + std::to_string(t), .activationArcs = act[t], .destinationArcs = dest, .requireNoActionsInExecution = true });
	}
	vh::Gate passes;
	e.createPlace({ .name = "sp", .initialNumberOfTokens = 1 });
	e.createTransition({ .name = "sentinel", .activationArcs = { { .placeName = "sp" } }, .additionalConditions = { [&] { passes.add(); return false; } } });
	e.setEventLoopSleepDuration(1ms);
	noise::configure(r.next(), (int)r.below(5), 20000);
	e.execute();
	std::vector<std::thread> ts;
	for (int p = 0; p < producers; ++p)
		ts.emplace_back(
		[&, rng = vh::Rng(r.next())]() mutable
		{
			for (int i = 0; i < incs; ++i)
			{
				e.incrementInputPlace(Held::name((int)rng.below(nA)));
				std::this_thread::sleep_for(std::chrono::microseconds(rng.below(300)));
			}
		});
	for (auto &t : ts) t.join();
	// at rest?
	auto enabled = [&]
	{
		for (int t = 0; t < nT; ++t)
		{
			bool en = true;
			for (auto &a : act[t]) en = en && e.getNumberOfTokens(a.placeName) >= a.weight;
			if (en) return true;
		}
		return false;
	};
	VH_CHECK(vh::await([&] { return !enabled(); }, 20, [&] { return passes.value(); }, 1000), "never-fired", "a transition stays enabled without firing, " << d.str());
	e.stop();
	noise::off();
	long f = 0;
	for (auto &x : exits) f += x;
	vh::count("event_loop_runs");
	vh::count("event_loop_actions", (uint64_t)actions.load());
	if (f) vh::distinct(vh::hcomb(std::hash<std::string>()(d.str()), (uint64_t)f));
}

// Random nets, nearly all with the requirement, in all modes: they run to the same rest as without it.
static void liveness(vh::Case &c, vh::Rng &r)
{
	GameRun::Options o;
	static const Mode modes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
	o.mode = modes[r.below(4)];
	o.gen.reqNoOften = true;
	o.gen.allActions = r.chance(1, 2);
	o.gen.maxP = 5;
	o.gen.maxT = 5;
	o.fuel = 40;
	GameRun run(Rng(r.next()), o);
	vh::describe("requirement " + run.describe());
	noise::configure(r.next(), (int)r.below(5), 20000);
	for (int k = 0; k < 2; ++k)
	{
		if (k) run.increments((int)r.below(5));
		run.runAndCheck();
	}
	noise::off();
	vh::count(std::string("liveness_") + modeName(o.mode));
	if (run.totalEvents()) vh::distinct(vh::hcomb(hashNet(run.net), hashEvents(run.lastEvents)));
}

// The transition fires all the time while inputs arrive: from the return of an input to the end of the
// action it triggered, the transition does not fire.
static void paired(vh::Case &c, vh::Rng &r)
{
	const Mode mode = r.chance(1, 2) ? Mode::DETACHED : Mode::JOB_QUEUE;
	const int nA = (int)r.range(1, 3), n = (int)r.range(5, 18);
	std::ostringstream d;
	d << "paired " << modeName(mode) << " places=" << nA << " inputs=" << n;
	vh::describe(d.str());
	const size_t many = 1 << 20;
	vh::Gate go, done;
	size_t after = 0; // fuel when the input had returned
	bool fell = false;
	PTN_Engine e(mode);
	std::vector<ArcProperties> act{ { .placeName = "fuel" } };
	for (int a = 0; a < nA; ++a)
	{
		e.createPlace({ .name = Held::name(a),
						.initialNumberOfTokens = many,
						.onEnterAction =
						[&]
						{
							go.waitFor(done.value() + 1);
							const size_t now = e.getNumberOfTokens("fuel");
							if (now != after)
								vh::fail("fired-during-action", "the transition fired between the return of an input into its activation place and the end of the on-enter action triggered by it (" +
																std::to_string(after) + " to " + std::to_string(now) + "), " + d.str());
							fell = true;
							done.add();
						},
						.input = true });
		act.push_back({ .placeName = Held::name(a) });
	}
	r.shuffle(act);
	e.createPlace({ .name = "fuel", .initialNumberOfTokens = many });
	e.createPlace({ .name = "sink" });
	e.createTransition({ .name = "T", .activationArcs = act, .destinationArcs = { { .placeName = "sink" } }, .requireNoActionsInExecution = true });
	e.setEventLoopSleepDuration(1ms);
	noise::configure(r.next(), r.chance(1, 2) ? 3 : (int)r.below(5), 30000);
	e.execute();
	for (int i = 0; i < n; ++i)
	{
		const size_t f0 = e.getNumberOfTokens("fuel");
		// it fires again
		VH_CHECK(vh::await([&] { return e.getNumberOfTokens("fuel") < f0; }, 20), "never-fired", "no firing although no action is executing, " << d.str());
		e.incrementInputPlace(Held::name((int)r.below(nA)));
		after = e.getNumberOfTokens("fuel");
		if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
		go.add();
		done.waitFor(i + 1);
		vh::tick();
	}
	noise::off();
	e.stop();
	VH_CHECK(e.getNumberOfTokens("fuel") + e.getNumberOfTokens("sink") == many, "tokens", d.str());
	vh::count("inputs_paired_with_actions", (uint64_t)n);
	if (fell) vh::distinct(vh::hcomb(std::hash<std::string>()(d.str()), r.next()));
}

// A failed evaluation (a condition or action throws, or is false) does not leave the places blocked.
static void failed(vh::Case &c, vh::Rng &r)
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	const int n = (int)r.range(1, 4);
	const int how = (int)r.below(4); // 0: guard throws, 1: guard false, 2: exit action throws, 3: not enabled (inhibitor)
	bool bad = true;
	long entered = 0;
	std::vector<ArcProperties> act;
	const int thrower = (int)r.below(n);
	for (int i = 0; i < n; ++i)
	{
		ptne::PlaceProperties p{ .name = Held::name(i), .onEnterAction = [&] { ++entered; }, .input = true };
		if (how == 2 && i == thrower)
			p.onExitAction = [&]
			{
				if (bad) throw 42;
			};
		e.createPlace(p);
		act.push_back({ .placeName = Held::name(i) });
	}
	e.createPlace({ .name = "d" });
	e.createPlace({ .name = "inh", .initialNumberOfTokens = how == 3 ? 1u : 0u });
	e.createPlace({ .name = "go", .input = true });
	e.createPlace({ .name = "gone" });
	e.createTransition({ .name = "free", .activationArcs = { { .placeName = "inh" }, { .placeName = "go" } }, .destinationArcs = { { .placeName = "gone" } } });
	r.shuffle(act);
	e.createTransition({ .name = "T",
						 .activationArcs = act,
						 .destinationArcs = { { .placeName = "d" } },
						 .inhibitorArcs = { { .placeName = "inh" } },
						 .additionalConditions = { [&]
												   {
													   if (bad && how == 0) throw 42;
													   return !(bad && how == 1);
												   } },
						 .requireNoActionsInExecution = true });
	std::ostringstream d;
	d << "failed evaluation how=" << how << " n=" << n;
	vh::describe(d.str());
	const int rounds = (int)r.range(1, 3);
	for (int k = 0; k < rounds; ++k)
	{
		for (int i = 0; i < n; ++i) e.incrementInputPlace(Held::name(i));
		try
		{
			e.execute();
		}
		catch (int)
		{
		}
	}
	bad = false;
	// must not hang: a stuck run is a violation
	for (int k = 0; k < 2; ++k)
		for (int i = 0; i < n; ++i) e.incrementInputPlace(Held::name(i));
	VH_CHECK(entered == (rounds + 2L) * n, "actions", "on-enter actions ran " << entered << " times " << d.str());
	if (how == 3) e.incrementInputPlace("go");
	const size_t before = e.getNumberOfTokens("d");
	size_t avail = SIZE_MAX;
	for (int i = 0; i < n; ++i) avail = std::min(avail, e.getNumberOfTokens(Held::name(i)));
	e.execute();
	if (how != 3 || e.getNumberOfTokens("gone")) VH_CHECK(e.getNumberOfTokens("d") == before + avail, "never-fired", "fired " << e.getNumberOfTokens("d") - before << " of " << avail << " times after a failed evaluation " << d.str());
	vh::count("failed_evaluations");
	vh::distinct(vh::hcomb(how * 100 + n * 10 + rounds, r.next()));
}

// Very many on-enter actions of one place, triggered and none of them finished: the transition waits for all.
static void masses(vh::Case &, vh::Rng &r)
{
	const Mode mode = r.chance(2, 3) ? Mode::JOB_QUEUE : Mode::DETACHED;
	static const long marks[] = { 1, 2, 127, 128, 255, 256, 257, 511, 512, 768, 1024, 4096, 32768, 65535, 65536, 65537 };
	// a detached action is a thread, a queued one is not
	const long most = mode == Mode::DETACHED ? 257 : r.chance(1, 25) ? 65537 : 1024;
	const bool first = r.chance(1, 2);
	std::ostringstream d;
	d << "masses " << modeName(mode) << " up to " << most << (first ? " fed before the start" : "");
	vh::describe(d.str());
	vh::Gate release;
	std::atomic<long> ended{ 0 }, passes{ 0 };
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(1ms);
	e.createPlace({ .name = "always", .initialNumberOfTokens = 1 });
	e.createTransition({ .name = "probe", .activationArcs = { { .placeName = "always" } }, .additionalConditions = { [&] { ++passes; return false; } } });
	const size_t before = r.chance(1, 2) ? r.below(4) : 0;
	e.createPlace({ .name = "A",
					.initialNumberOfTokens = before,
					.onEnterAction =
					[&]
					{
						release.waitFor(1);
						++ended;
					},
					.input = true });
	e.createPlace({ .name = "B" });
	std::vector<ArcProperties> act{ { .placeName = "A" } };
	for (int i = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : (int)r.range(2, most > 1024 ? 12 : 80); i > 0; --i)
	{
		const std::string n = "other" + std::to_string(i);
		e.createPlace({ .name = n, .initialNumberOfTokens = (size_t)most + 10 });
		act.insert(act.begin() + (long)r.below(act.size() + 1), ArcProperties{ .placeName = n });
	}
	d << " activation places " << act.size();
	long in = 0;
	auto feed = [&](long upTo)
	{
		for (; in < upTo; ++in)
		{
			e.incrementInputPlace("A");
			if (in % 64 == 0) vh::tick();
		}
	};
	feed(1); // from here on there is an action that has not ended
	e.createTransition({ .name = "T", .activationArcs = act, .destinationArcs = { { .placeName = "B" } }, .requireNoActionsInExecution = true });
	if (most > 1024) // while the net is running, an input may have to wait for a pass to end: so many would take minutes
		feed(most - 3);
	else if (first)
		feed(std::min(most, marks[r.below(8)]));
	e.execute();
	long looked = 0;
	for (long m : marks)
	{
		if (m < in || m > most || (m != most && m != 256 && m != 65536 && r.chance(1, 3))) continue;
		feed(m);
		const long p = passes;
		// a pass that began after the last input has ended once the third evaluation from here is seen
		VH_CHECK(vh::await([&] { return passes >= p + 3; }, 30), "no-evaluation", "the running engine does not evaluate the net, " << d.str());
		VH_CHECK(e.getNumberOfTokens("B") == 0, "fired-during-action", "the transition fired although " << in << " on-enter actions of its activation place had been triggered and none had ended, " << d.str());
		++looked;
	}
	release.add();
	VH_CHECK(vh::await([&] { return ended == in; }, 60, [&] { return passes.load(); }, 1000), "actions-lost", ended << " of " << in << " actions ended, " << d.str());
	VH_CHECK(vh::await([&] { return e.getNumberOfTokens("B") >= 1; }, 20, [&] { return passes.load(); }, 1000), "wedged", "the transition does not fire although all " << in << " actions have ended, " << d.str());
	if (most <= 1024)
		VH_CHECK(vh::await([&] { return e.getNumberOfTokens("B") == (size_t)in + before; }, 30, [&] { return passes.load(); }, 1000), "wedged",
				 e.getNumberOfTokens("B") << " of " << in + (long)before << " firings, " << d.str());
	e.stop();
	vh::count("actions_held_at_once", (uint64_t)in);
	vh::count("masses_looked_at", (uint64_t)looked);
	vh::distinct(vh::hcomb((uint64_t)in * 8 + (uint64_t)mode, (uint64_t)looked * 16 + before * 2 + first));
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	// (threads by the hundred are slow under TSan, and add nothing there)
#if __has_feature(thread_sanitizer)
	const bool many = false;
#else
	const bool many = c.index / 8 % 20 == 7;
#endif
	if (many) return masses(c, r);
	const int k = (int)r.below(23);
	if (k >= 20)
		paired(c, r);
	else if (k < 6)
		held(c, r);
	else if (k < 8)
		bystanders(c, r);
	else if (k < 12)
		stress(c, r);
	else if (k < 14)
		eventLoop(c, r);
	else if (k < 18)
		liveness(c, r);
	else
		failed(c, r);
}
