// C11 - overflow is refused, never wrapped.
#include "game.h"
using namespace game;
const char *vh_property = "C11";
using namespace std::chrono_literals;

static const Mode kModes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
static size_t boundary(vh::Rng &r)
{
	static const size_t b[] = { 0, 1ull << 31, 1ull << 32, 1ull << 63, SIZE_MAX, SIZE_MAX, SIZE_MAX / 2 };
	return b[r.below(std::size(b))] + r.below(4) - r.below(4);
}
static size_t nearMax(vh::Rng &r)
{
	return SIZE_MAX - r.below(r.chance(1, 2) ? 3 : 12);
}

// Increments at the boundary, from one or several threads.
static void increments(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kModes[r.below(4)];
	const bool threaded = mode != Mode::SINGLE_THREAD, running = threaded && r.chance(1, 2);
	const int nP = (int)r.range(1, 4), producers = (int)r.range(1, 4), tries = (int)r.range(3, 20);
	auto actsP = std::make_shared<std::deque<std::atomic<long>>>();
	auto allP = std::make_shared<std::atomic<long>>(0);
	auto &acts = *actsP;
	auto &allActs = *allP;
	std::deque<std::atomic<long>> ok;
	std::vector<size_t> init;
	std::vector<bool> has;
	PTN_Engine e(mode);
	for (int i = 0; i < nP; ++i)
	{
		init.push_back(nearMax(r));
		acts.emplace_back(0);
		ok.emplace_back(0);
		has.push_back(r.chance(3, 4));
		ptne::PlaceProperties p{ .name = "P" + std::to_string(i), .initialNumberOfTokens = init[i], .input = true };
		if (has[i]) p.onEnterAction = [actsP, allP, i] { ++(*actsP)[i]; ++*allP; };
		e.createPlace(p);
	}
	e.createPlace({ .name = "quiet", .initialNumberOfTokens = SIZE_MAX });
	// guarded off: the place is full and its transition is not enabled
	e.createTransition({ .name = "never", .activationArcs = { { .placeName = "quiet" } }, .destinationArcs = { { .weight = SIZE_MAX, .placeName = "P0" } }, .additionalConditions = { [] { return false; } } });
	std::ostringstream d;
	d << "increments " << modeName(mode) << (running ? " running" : "") << " producers=" << producers << "x" << tries;
	for (auto i : init) d << " MAX-" << SIZE_MAX - i;
	vh::describe(d.str());
	e.setEventLoopSleepDuration(1ms);
	noise::configure(r.next(), (int)r.below(5), 20000);
	if (running) e.execute();
	std::atomic<long> refused{ 0 };
	std::deque<std::atomic<long>> tried;
	for (int i = 0; i < nP; ++i) tried.emplace_back(0);
	std::vector<std::thread> ts;
	for (int k = 0; k < producers; ++k)
		ts.emplace_back(
		[&, rng = vh::Rng(r.next())]() mutable
		{
			for (int x = 0; x < tries; ++x)
			{
				const int p = (int)rng.below(nP);
				++tried[p];
				try
				{
					e.incrementInputPlace("P" + std::to_string(p));
					++ok[p];
				}
				catch (const ptne::PTN_Exception &)
				{
					++refused;
					const size_t v = e.getNumberOfTokens("P" + std::to_string(p));
					VH_CHECK(v == SIZE_MAX, "refused-early", "an increment was refused, the place holds MAX-" << SIZE_MAX - v << " " << d.str());
				}
			}
		});
	for (auto &t : ts) t.join();
	long want = 0;
	for (int i = 0; i < nP; ++i)
	{
		const size_t room = SIZE_MAX - init[i], n = std::min<size_t>(room, (size_t)tried[i]);
		const size_t v = e.getNumberOfTokens("P" + std::to_string(i));
		VH_CHECK(v == init[i] + n && (size_t)ok[i] == n, "wrong-count",
				 "P" << i << " had room for " << room << ", " << tried[i] << " increments were tried and " << ok[i] << " accepted, it holds " << v << " " << d.str());
		if (has[i]) want += (long)n;
	}
	VH_CHECK(e.getNumberOfTokens("quiet") == SIZE_MAX, "other-place", d.str());
	VH_CHECK(vh::await([&] { return allActs >= want; }, 15), "actions", "only " << allActs << " of " << want << " actions of accepted increments ran " << d.str());
	if (mode == Mode::DETACHED || mode == Mode::JOB_QUEUE) std::this_thread::sleep_for(2ms);
	for (int i = 0; i < nP; ++i)
		if (has[i]) VH_CHECK(acts[i] == ok[i], "actions", "P" << i << ": " << ok[i] << " increments accepted but " << acts[i] << " actions ran " << d.str());
	VH_CHECK(e.isEventLoopRunning() == running, "state", "running changed " << d.str());
	if (running) e.stop();
	noise::off();
	vh::count("refused_increments", (uint64_t)refused.load());
	vh::count(std::string("increments_") + modeName(mode));
	if (refused) vh::distinct(vh::hcomb(std::hash<std::string>()(d.str()), (uint64_t)refused.load()));
}

// A sequence of single firings and increments with huge counts and weights against exact arithmetic.
static void firings(vh::Case &c, vh::Rng &r)
{
	const Mode mode = r.chance(2, 3) ? Mode::SINGLE_THREAD : kModes[r.below(4)];
	NetS n;
	const int nP = (int)r.range(1, 5), nT = (int)r.range(1, 6);
	for (int i = 0; i < nP; ++i)
	{
		PlaceS p;
		p.name = "P" + std::to_string(i);
		p.init = r.chance(1, 2) ? nearMax(r) : boundary(r);
		p.enter = r.chance(1, 2);
		p.exit = r.chance(1, 2);
		p.input = true;
		n.P.push_back(p);
	}
	for (int t = 0; t < nT; ++t)
	{
		TransS tr;
		tr.name = "T" + std::to_string(t);
		std::vector<int> idx(nP);
		for (int i = 0; i < nP; ++i) idx[i] = i;
		auto arcs = [&](int k, bool act)
		{
			std::vector<ArcS> v;
			r.shuffle(idx);
			for (int i = 0; i < k && i < nP; ++i)
			{
				size_t w = r.chance(1, 2) ? 1 + r.below(4) : r.chance(1, 2) ? nearMax(r) : boundary(r);
				if (w == 0 && !(act && r.chance(1, 2))) w = 1;
				v.push_back({ idx[i], w });
			}
			return v;
		};
		tr.act = arcs((int)r.below(3), true);
		tr.dest = arcs((int)r.below(3), false);
		if (!tr.act.empty() && r.chance(1, 3)) tr.dest = { { tr.act[0].place, r.chance(1, 2) && tr.act[0].w ? tr.act[0].w : 1 + r.below(4) } }; // a loop
		if (r.chance(1, 4)) tr.inh = arcs(1, false);
		n.T.push_back(tr);
	}
	PlaceS go;
	go.name = "go";
	go.enter = go.exit = false;
	go.input = true;
	n.P.push_back(go);
	for (int t = 0; t < nT; ++t)
	{
		n.T[t].act.insert(n.T[t].act.begin() + (long)r.below(n.T[t].act.size() + 1), ArcS{ nP, 1 });
		n.T[t].guards = { t };
	}
	std::atomic<int> cur{ -1 };
	// outlives the case: the last detached actions may
	auto actsP = std::make_shared<std::deque<std::atomic<long>>>();
	auto &acts = *actsP;
	for (size_t i = 0; i < n.P.size(); ++i) acts.emplace_back(0);
	Callbacks cb;
	cb.enter = [&](int p) -> ptne::ActionFunction { return [actsP, p] { ++(*actsP)[p]; }; };
	cb.exit = [&](int p) -> ptne::ActionFunction { return [actsP, p] { ++(*actsP)[p]; }; };
	cb.guard = [&](int t, int) -> ptne::ConditionFunction { return [&, t] { return cur == t; }; };
	vh::describe(std::string("firings ") + modeName(mode) + " " + show(n));
	PTN_Engine e(mode);
	build(e, n, cb, &r);
	e.setEventLoopSleepDuration(1ms);
	Marking m = initial(n);
	auto where = [&] { return std::string(" with ") + show(m) + " of " + modeName(mode) + " " + show(n); };
	const bool threaded = mode != Mode::SINGLE_THREAD;
	const int steps = (int)r.range(3, 25);
	uint64_t h = hashNet(n);
	size_t fired = 0, refused = 0, over = 0;
	for (int s = 0; s < steps; ++s)
	{
		if (r.chance(1, 3))
		{
			const int p = (int)r.below(nP);
			const bool full = m[p] == SIZE_MAX;
			std::vector<long> before;
			for (auto &a : acts) before.push_back(a);
			bool threw = false;
			try
			{
				e.incrementInputPlace(n.P[p].name);
			}
			catch (const ptne::PTN_Exception &)
			{
				threw = true;
			}
			VH_CHECK(threw == full, "increment", "increment of " << n.P[p].name << (threw ? " threw" : " was accepted") << where());
			if (!full) ++m[p];
			refused += full;
			const Marking now = observe(e, n);
			VH_CHECK(now == m, "increment", "marking " << show(now) << " after an increment of " << n.P[p].name << ", expected" << where());
			if (full && !threaded)
				for (size_t i = 0; i < acts.size(); ++i) VH_CHECK(acts[i] == before[i], "actions", "a refused increment ran an action" << where());
			continue;
		}
		const int t = (int)r.below(nT);
		Marking want = m;
		++want[nP];
		const Marking start = want;
		bool overflow = false;
		int k = 0;
		while (tokenEnabled(n.T[t], want))
		{
			Marking x = want;
			if (!fire(n.T[t], x))
			{
				overflow = true;
				break;
			}
			want = x;
			++k;
		}
		if (threaded && overflow) continue; // would end the process: an exception on the loop's thread
		if (k) h = vh::hcomb(h, (uint64_t)t);
		e.incrementInputPlace("go");
		cur = t;
		if (!threaded)
		{
			bool threw = false;
			std::string what;
			try
			{
				e.execute();
			}
			catch (const ptne::OverflowException &x)
			{
				threw = true;
				what = x.what();
			}
			const Marking now = observe(e, n);
			VH_CHECK(threw == overflow, "overflow-report", "firing " << n.T[t].name << (threw ? " reported an overflow that does not happen" : " overflows without an OverflowException") << ", marking afterwards " << show(now) << where());
			if (overflow)
			{
				++over;
				for (size_t p = 0; p < n.P.size(); ++p)
				{
					std::set<size_t> legal{ want[p] };
					for (auto &a : n.T[t].act)
						if (a.place == (int)p)
						{
							const size_t x = a.w == 0 ? 0 : want[p] - a.w;
							legal.insert(x);
						}
					for (auto &a : n.T[t].dest)
						if (a.place == (int)p)
						{
							std::set<size_t> more;
							for (size_t x : legal)
								if (a.w <= SIZE_MAX - x) more.insert(x + a.w);
							legal.insert(more.begin(), more.end());
						}
					VH_CHECK(legal.count(now[p]), "wrapped", "a firing of " << n.T[t].name << " that overflows left " << n.P[p].name << " at " << now[p] << " from " << want[p] << where());
				}
				m = now;
				cur = -1;
				e.execute(); // usable
				VH_CHECK(observe(e, n) == m, "state", "fired with all conditions false" << where());
				continue;
			}
		}
		else
		{
			e.execute();
			const bool reached = vh::await([&] { return observe(e, n) == want; }, 10);
			VH_CHECK(reached, "wrong-marking", "firing " << n.T[t].name << " from " << show(start) << " led to " << show(observe(e, n)) << " instead of " << show(want) << where());
			e.stop();
		}
		const Marking now = observe(e, n);
		VH_CHECK(now == want, "wrong-marking", "firing " << n.T[t].name << " " << k << " times from " << show(start) << " led to " << show(now) << " instead of " << show(want) << where());
		m = want;
		cur = -1;
		fired += k;
		// as shown by the snapshots
		if (r.chance(1, 4))
		{
			for (auto &pp : e.getPlacesProperties())
			{
				for (size_t p = 0; p < n.P.size(); ++p)
					if (n.P[p].name == pp.name) VH_CHECK(pp.initialNumberOfTokens == m[p], "properties", pp.name << " shown with " << pp.initialNumberOfTokens << where());
			}
			std::ostringstream os;
			e.printState(os);
			for (size_t p = 0; p < n.P.size(); ++p)
				VH_CHECK(os.str().find(n.P[p].name + ": " + std::to_string(m[p]) + "\n") != std::string::npos, "print", os.str() << where());
		}
	}
	vh::count("firings", fired);
	vh::count("overflowing_firings", over);
	vh::count("refused_increments", refused);
	vh::count(std::string("firings_") + modeName(mode), fired);
	if (fired + over + refused) vh::distinct(h);
	if (over && fired) vh::sample(show(n));
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	if (r.chance(1, 3))
		increments(c, r);
	else
		firings(c, r);
}
