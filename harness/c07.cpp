// C07 - JOB_QUEUE: actions one at a time, in the order they were triggered.
// The log is deliberately unsynchronised: in the TSan build any overlap is also a reported race.
#include "game.h"
using namespace game;
const char *vh_property = "C07";

namespace
{
// Replay in which inputs may be logged in the middle of a firing's actions.
struct State
{
	Marking m;
	std::vector<Event> exits, enters; // still to come of the firing in progress
	bool operator<(const State &o) const
	{
		if (m != o.m) return m < o.m;
		auto key = [](const std::vector<Event> &v)
		{
			std::vector<int> k;
			for (auto &e : v) k.push_back(e.place * 4 + e.kind);
			return k;
		};
		if (exits != o.exits) return key(exits) < key(o.exits);
		return key(enters) < key(o.enters);
	}
};

struct Result
{
	bool ok = false, tooMany = false;
	size_t stuckAt = 0;
	std::set<Marking> finals;
};

Result replayInterleaved(const NetS &n, const std::vector<Event> &ev, const std::vector<bool> &guardValue)
{
	Result res;
	std::set<State> cur;
	cur.insert({ initial(n), {}, {} });
	auto take = [](std::vector<Event> &v, const Event &e)
	{
		auto it = std::find(v.begin(), v.end(), e);
		if (it == v.end()) return false;
		v.erase(it);
		return true;
	};
	for (size_t i = 0; i < ev.size(); ++i)
	{
		std::set<State> next;
		for (auto s : cur)
		{
			if (ev[i].kind == Event::INC)
			{
				++s.m[ev[i].place];
				next.insert(s);
				continue;
			}
			if (!s.exits.empty() || !s.enters.empty())
			{
				if (!s.exits.empty() ? take(s.exits, ev[i]) : take(s.enters, ev[i])) next.insert(s);
				continue;
			}
			for (auto &t : n.T)
			{
				bool g = true;
				for (int k : t.guards) g = g && guardValue[k];
				if (!g || !tokenEnabled(t, s.m)) continue;
				State x = s;
				for (auto &a : t.act)
					if (n.P[a.place].exit) x.exits.push_back({ Event::EXIT, a.place });
				for (auto &a : t.dest)
					if (n.P[a.place].enter) x.enters.push_back({ Event::ENTER, a.place });
				if (!fire(t, x.m)) continue;
				if (!x.exits.empty() ? take(x.exits, ev[i]) : take(x.enters, ev[i])) next.insert(x);
			}
		}
		if (next.empty())
		{
			res.stuckAt = i;
			return res;
		}
		if (next.size() > 400)
		{
			res.tooMany = true;
			return res;
		}
		cur.swap(next);
	}
	res.ok = true;
	for (auto &s : cur)
		if (s.exits.empty() && s.enters.empty()) res.finals.insert(s.m);
	if (res.finals.empty())
	{
		res.ok = false;
		res.stuckAt = ev.size();
	}
	return res;
}
} // namespace

// Thousands of actions pending behind one that is held or slow; switches of the thread option and stops meanwhile.
static void backlog(vh::Case &c, vh::Rng &r)
{
	const size_t n = 1ull << r.range(8, c.thorough ? 17 : 14);
	const int producers = (int)r.range(1, 3);
	PTN_Engine e(Mode::JOB_QUEUE);
	e.setEventLoopSleepDuration(std::chrono::hours(1));
	vh::Gate ran, release;
	std::vector<int> log; // unsynchronised
	std::atomic<int> inside{ 0 };
	std::atomic<bool> overlap{ false };
	auto action = [&](int id)
	{
		return [&, id]
		{
			if (++inside > 1) overlap = true;
			release.waitFor(1);
			log.push_back(id);
			--inside;
			vh::tick();
			ran.add();
		};
	};
	// each producer alternates at random between two places of its own; a firing's two actions are id 100 and 101
	for (int p = 0; p < producers; ++p)
		for (int k = 0; k < 2; ++k)
			e.createPlace({ .name = "p" + std::to_string(p) + "_" + std::to_string(k), .onEnterAction = action(p * 2 + k), .input = true });
	const size_t firings = r.chance(1, 2) ? r.below(n) : 0;
	e.createPlace({ .name = "from", .initialNumberOfTokens = firings, .onExitAction = action(100) });
	e.createPlace({ .name = "to", .onEnterAction = action(101) });
	e.createTransition({ .name = "t", .activationArcs = { { .placeName = "from" } }, .destinationArcs = { { .placeName = "to" } } });
	vh::describe("backlog of " + std::to_string(n) + " inputs, " + std::to_string(firings) + " firings, " + std::to_string(producers) + " producers");
	noise::configure(r.next(), (int)r.below(5), 20000);
	e.execute();
	std::vector<std::vector<int>> calls(producers);
	std::vector<std::thread> ps;
	for (int p = 0; p < producers; ++p)
		ps.emplace_back(
		[&, p, rng = vh::Rng(r.next())]() mutable
		{
			for (size_t i = 0; i < n / (size_t)producers; ++i)
			{
				const int k = (int)rng.below(2);
				e.incrementInputPlace("p" + std::to_string(p) + "_" + std::to_string(k));
				calls[p].push_back(p * 2 + k);
			}
		});
	if (r.chance(1, 2)) release.add();
	for (auto &t : ps) t.join();
	VH_CHECK(vh::await([&] { return e.getNumberOfTokens("to") == firings; }, 60), "blocked", "the net did not go on with a backlog of actions");
	const bool switched = r.chance(1, 3);
	if (switched)
	{
		// the order of what is pending survives a change of the option and back
		e.stop();
		e.setActionsThreadOption(r.chance(1, 2) ? Mode::DETACHED : Mode::EVENT_LOOP);
		e.setActionsThreadOption(Mode::JOB_QUEUE);
		for (int i = 0; i < 20; ++i)
		{
			e.incrementInputPlace("p0_0");
			calls[0].push_back(0);
		}
	}
	release.add();
	size_t total = 2 * firings;
	for (auto &v : calls) total += v.size();
	ran.waitFor((long)total);
	noise::off();
	VH_CHECK(!overlap, "overlap", "two actions were executing at once with a backlog of " << n);
	VH_CHECK(log.size() == total, "count", log.size() << " actions ran, " << total << " were triggered");
	std::vector<std::vector<int>> got(producers);
	int last = 101;
	for (int id : log)
		if (id >= 100)
		{
			VH_CHECK(id != last, "order", "the exit and enter actions of successive firings do not alternate, with a backlog of " << n);
			last = id;
		}
		else got[id / 2].push_back(id);
	for (int p = 0; p < producers; ++p)
		VH_CHECK(got[p] == calls[p], "order", "the actions of producer " << p << " did not run in the order of its calls, with a backlog of " << n);
	vh::count("backlogs");
	vh::count("actions", total);
	if (switched) vh::count("option_switches_with_backlog");
	vh::distinct(vh::hcomb(n, r.next()));
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	if (c.index % 60 == 17) return backlog(c, r);
	GenOpts go;
	go.inhibitInputs = false;
	go.resets = false;
	go.maxP = 6;
	go.maxT = 6;
	go.nameStyle = 0;
	Gen gen = randomNet(r, go);
	NetS &net = gen.net;
	const int producers = (int)r.range(1, 4);
	const int perProducer = (int)r.range(1, 2);
	// the net's own input places become plain places; each producer has input places of its own
	for (int i = 0; i < gen.nPlain; ++i) net.P[i].input = false;
	const size_t fuel = r.range(5, 150);
	PlaceS f{ .name = "fuel", .init = fuel, .enter = false, .exit = false };
	net.P.push_back(f);
	const int fuelPlace = (int)net.P.size() - 1;
	for (auto &t : net.T) t.act.insert(t.act.begin() + (long)r.below(t.act.size() + 1), ArcS{ fuelPlace, 1 });
	std::vector<std::vector<int>> own(producers + 1); // the last one: inputs made by actions
	for (int p = 0; p <= producers; ++p)
		for (int i = 0; i < perProducer; ++i)
		{
			PlaceS q{ .name = "in" + std::to_string(p) + "_" + std::to_string(i), .init = 0, .enter = true, .exit = r.chance(1, 2), .input = true };
			net.P.push_back(q);
			const int id = (int)net.P.size() - 1;
			own[p].push_back(id);
			if (!net.T.empty())
				for (int k = 0; k < 2; ++k)
				{
					auto &t = net.T[r.below(net.T.size())];
					if (std::none_of(t.act.begin(), t.act.end(), [&](auto &a) { return a.place == id; }) && r.chance(2, 3))
						t.act.insert(t.act.begin() + (long)r.below(t.act.size() + 1), ArcS{ id, 1 });
				}
		}
	std::vector<bool> guardValue;
	for (int i = 0; i < go.numGuards; ++i) guardValue.push_back(r.chance(4, 5));
	std::vector<int> ownerOf(net.P.size(), -1);
	for (int p = 0; p <= producers; ++p)
		for (int id : own[p]) ownerOf[id] = p;

	const int slowUs = r.chance(1, 2) ? (int)r.below(400) : 0;
	std::atomic<int> actionIncsLeft{ r.chance(1, 2) ? (int)r.below(15) : 0 };
	std::atomic<int> inside{ 0 };
	std::atomic<int> maxInside{ 0 };
	std::vector<Event> log;      // not synchronised, see above
	std::vector<int> actionCalls; // inputs made by actions: by the one action running
	log.reserve(1 << 14);
	vh::Gate ran;
	vh::Gate passes;
	std::string where = "JOB_QUEUE producers=" + std::to_string(producers) + " " + show(net);
	vh::describe(where);

	auto e = std::make_unique<PTN_Engine>(Mode::JOB_QUEUE);
	auto act = [&](int p, bool enter)
	{
		const int k = ++inside;
		if (k > 1) maxInside = k;
		const Event::Kind kind = !enter ? Event::EXIT : ownerOf[p] >= 0 ? Event::INC : Event::ENTER;
		log.push_back({ kind, p });
		const uint64_t n = log.size();
		if (slowUs && vh::mix(n) % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(vh::mix(n * 3) % slowUs));
		if (actionIncsLeft > 0 && vh::mix(n * 5) % 3 == 0 && ownerOf[p] != producers)
		{
			const int q = own[producers][vh::mix(n * 7) % own[producers].size()];
			actionCalls.push_back(q);
			e->incrementInputPlace(net.P[q].name);
			--actionIncsLeft; // when it is 0, no action calls the engine any more
		}
		if (inside > 1) maxInside = 2;
		--inside;
		vh::tick();
		ran.add();
	};
	Callbacks cb;
	cb.enter = [&](int p) -> ptne::ActionFunction { return [&, p] { act(p, true); }; };
	cb.exit = [&](int p) -> ptne::ActionFunction { return [&, p] { act(p, false); }; };
	cb.guard = [&](int t, int k) -> ptne::ConditionFunction { return [v = (bool)guardValue[net.T[t].guards[k]]] { return v; }; };
	build(*e, net, cb, &r);
	e->setEventLoopSleepDuration(std::chrono::milliseconds(1));
	e->createPlace({ .name = "sentinel place", .initialNumberOfTokens = 1 });
	e->createTransition({ .name = "sentinel",
						  .activationArcs = { { .placeName = "sentinel place" } },
						  .additionalConditions = { [&]
													{
														passes.add();
														return false;
													} } });
	noise::configure(r.next(), (int)r.below(5), 60000);
	std::vector<std::vector<int>> calls(producers);
	std::vector<std::thread> ts;
	const int incs = (int)r.range(3, c.thorough ? 120 : 50);
	const int spread = r.chance(1, 2) ? 0 : 60;
	if (r.chance(3, 4)) e->execute();
	for (int p = 0; p < producers; ++p)
		ts.emplace_back(
		[&, p, rng = vh::Rng(r.next())]() mutable
		{
			for (int i = 0; i < incs; ++i)
			{
				const int q = own[p][rng.below(own[p].size())];
				calls[p].push_back(q);
				e->incrementInputPlace(net.P[q].name);
				if (spread) std::this_thread::sleep_for(std::chrono::microseconds(rng.below(spread)));
			}
		});
	const int toggles = (int)r.below(5);
	int switches = 0;
	for (int k = 0; k < toggles; ++k)
	{
		std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
		if (e->isEventLoopRunning())
			e->stop();
		else
			e->execute();
	}
	for (auto &t : ts) t.join();
	if (r.chance(1, 3))
	{
		// to another option and back, with actions still waiting
		if (e->isEventLoopRunning()) e->stop();
		if (actionIncsLeft <= 0)
		{
			const Mode other[] = { Mode::EVENT_LOOP, Mode::SINGLE_THREAD, Mode::DETACHED };
			e->setActionsThreadOption(other[r.below(3)]);
			e->setActionsThreadOption(Mode::JOB_QUEUE);
			++switches;
		}
	}
	if (!e->isEventLoopRunning()) e->execute();
	// at rest: marking stable and every action accounted for has run
	auto expected = [&](const Marking &m)
	{
		long n = 0;
		for (size_t t = 0; t < net.T.size(); ++t)
		{
			long s = 0;
			for (auto &a : net.T[t].act) s += net.P[a.place].exit;
			for (auto &a : net.T[t].dest) s += net.P[a.place].enter;
			n += (long)m[gen.nPlain + (int)t] * s;
		}
		return n + (long)producers * incs; // those made by actions are added by the caller
	};
	Marking now;
	for (int tries = 0;; ++tries)
	{
		now = observe(*e, net);
		const long want = expected(now);
		const bool enough = vh::await([&] { return ran.value() >= want || observe(*e, net) != now; }, 15);
		const long p = passes.value();
		vh::await([&] { return passes.value() >= p + 4; }, 30);
		const long n1 = ran.value();
		if (observe(*e, net) == now && enough && n1 >= want)
		{
			const long p2 = passes.value();
			vh::await([&] { return passes.value() >= p2 + 3; }, 30);
			if (ran.value() == n1 && observe(*e, net) == now && inside == 0) break;
		}
		VH_CHECK(enough, "missing-actions", "only " << ran.value() << " of at least " << want << " triggered actions ever ran, of " << where);
		if (tries > 2000) vh::error("the net never came to rest: " + where);
	}
	e->stop();
	noise::off();
	ran.value(); // synchronises with the last action
	now = observe(*e, net);
	VH_CHECK(maxInside == 0, "overlap", "two actions were executing at once in " << where);
	for (int p = 0; p < producers; ++p)
	{
		std::vector<int> got;
		for (auto &x : log)
			if (x.kind == Event::INC && ownerOf[x.place] == p) got.push_back(x.place);
		VH_CHECK(got == calls[p], "order", "the actions of one thread's inputs ran in another order than the calls: " << got.size() << " actions for "
																														 << calls[p].size() << " calls of " << where);
	}
	{
		std::vector<int> got;
		for (auto &x : log)
			if (x.kind == Event::INC && ownerOf[x.place] == producers) got.push_back(x.place);
		VH_CHECK(got == actionCalls, "order", "the actions of inputs made by actions ran in another order than the calls, of " << where);
	}
	auto res = replayInterleaved(net, log, guardValue);
	if (res.tooMany)
		vh::count("inconclusive_ambiguous_runs");
	else
	{
		VH_CHECK(res.ok, "order", "the executed sequence of actions is not that of a legal run: unexplained at " << res.stuckAt << ": "
									  << show(net, log, res.stuckAt, res.stuckAt + 10) << " after "
									  << show(net, log, res.stuckAt > 12 ? res.stuckAt - 12 : 0, res.stuckAt) << " of " << where);
		VH_CHECK(res.finals.count(now), "marking", "the executed actions lead to another marking than " << show(now) << " e.g. "
													   << show(*res.finals.begin()) << " of " << where);
		vh::count("replayed_runs");
	}
	vh::count("actions", log.size());
	vh::count("inputs_by_actions", actionCalls.size());
	vh::count("stop_start_toggles", (uint64_t)toggles);
	vh::count("option_switches_with_queue", (uint64_t)switches);
	uint64_t h = hashNet(net);
	h = vh::hcomb(h, hashEvents(log));
	if (log.size() > 3) vh::distinct(h);
	if (log.size() > 60) vh::sample(where + " log " + show(net, log, 0, 40));
	e.reset();
}
