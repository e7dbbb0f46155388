// C12 - start, stop, restart, destruction.
#include <climits>
#include "game.h"
using namespace game;
const char *vh_property = "C12";
using namespace std::chrono_literals;
static const Mode kModes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

namespace
{
//! Conditions of the net report here: who evaluates, when.
struct Watch
{
	std::atomic<int> inside{ 0 };
	std::atomic<bool> mayRun{ false };   //!< false: no evaluation is allowed (set around stop)
	std::atomic<bool> strict{ true };
	std::atomic<long> evals{ 0 };
	vh::Gate passes;
	std::string what;
	unsigned slow = 0;
	void evaluate()
	{
		if (++inside > 1) vh::fail("two-loops", "two evaluations at once, " + what);
		if (strict && !mayRun) vh::fail("ran-while-stopped", "a condition was evaluated while the loop is stopped, " + what);
		++evals;
		if (slow && vh::mix(evals) % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(vh::mix(evals) % slow));
		if (strict && !mayRun) vh::fail("ran-while-stopped", "a condition was still being evaluated when stop() had returned, " + what);
		if (--inside > 0) vh::fail("two-loops", "two evaluations at once, " + what);
		passes.add();
	}
};

//! in0..inN (inputs) -> out (with an action counting), by one transition each
struct Net
{
	std::shared_ptr<vh::Gate> outs = std::make_shared<vh::Gate>();
	std::shared_ptr<Watch> w = std::make_shared<Watch>();
	std::vector<size_t> in;  //!< expected total fed into each input
	int n;
	std::unique_ptr<PTN_Engine> e;

	Net(vh::Rng &r, Mode m)
	{
		n = (int)r.range(1, 5);
		e = std::make_unique<PTN_Engine>(m);
		for (int i = 0; i < n; ++i)
		{
			const size_t init = r.below(3);
			in.push_back(init);
			e->createPlace({ .name = "in" + std::to_string(i), .initialNumberOfTokens = init, .input = true });
			e->createPlace({ .name = "mid" + std::to_string(i) });
			e->createPlace({ .name = "out" + std::to_string(i), .onEnterAction = [g = outs] { vh::tick(); g->add(); } });
			e->createTransition({ .name = "a" + std::to_string(i), .activationArcs = { { .placeName = "in" + std::to_string(i) } }, .destinationArcs = { { .placeName = "mid" + std::to_string(i) } } });
			e->createTransition({ .name = "b" + std::to_string(i), .activationArcs = { { .placeName = "mid" + std::to_string(i) } }, .destinationArcs = { { .placeName = "out" + std::to_string(i) } } });
		}
		e->createPlace({ .name = "sp", .initialNumberOfTokens = 1 });
		e->createTransition({ .name = "sentinel", .activationArcs = { { .placeName = "sp" } }, .additionalConditions = { [x = w] { x->evaluate(); return false; } } });
	}
	long total() const
	{
		long t = 0;
		for (auto v : in) t += (long)v;
		return t;
	}
	Marking marking() const
	{
		Marking m;
		for (int i = 0; i < n; ++i)
			for (auto p : { "in", "mid", "out" }) m.push_back(e->getNumberOfTokens(p + std::to_string(i)));
		return m;
	}
	std::string conserved() const
	{
		const Marking m = marking();
		for (int i = 0; i < n; ++i)
			if (m[3 * i] + m[3 * i + 1] + m[3 * i + 2] != in[i]) return "input " + std::to_string(i) + " got " + std::to_string(in[i]) + " tokens, the marking is " + show(m);
		return "";
	}
	void put(vh::Rng &r)
	{
		const int i = (int)r.below(n);
		e->incrementInputPlace("in" + std::to_string(i));
		++in[i];
	}
};

std::chrono::milliseconds period(vh::Rng &r)
{
	static const long ms[] = { 0, 1, 1, 5, 3600000, 3600000, 3600000, 86400000, 9223372036855, LONG_MAX };
	return std::chrono::milliseconds(ms[r.below(std::size(ms))]);
}
} // namespace

// One controlling thread, exact expectations after every call.
static void history(vh::Case &c, vh::Rng &r)
{
	Mode mode = kModes[r.below(4)];
	Net net(r, mode);
	auto &e = net.e;
	bool running = false;
	std::chrono::milliseconds per = period(r);
	e->setEventLoopSleepDuration(per);
	net.w->slow = r.chance(1, 3) ? (unsigned)r.below(300) : 0;
	std::string hist = modeName(mode);
	hist += " " + std::to_string(per.count()) + "ms:";
	const int steps = (int)r.range(3, c.thorough ? 120 : 60);
	auto where = [&] { return "history " + hist + " places=" + std::to_string(net.n); };
	net.w->what = where();
	noise::configure(r.next(), (int)r.below(5), 40000);
	uint64_t h = (uint64_t)mode;
	std::ostringstream log;
	Marking still; // marking at the last stop, with later inputs
	for (int s = 0; s < steps; ++s)
	{
		const int op = (int)r.below(14);
		h = vh::hcomb(h, (uint64_t)op);
		switch (op)
		{
		case 0:
		case 1:
		case 2: // execute
		{
			hist += " X";
			vh::describe(where());
			net.w->mayRun = true;
			bool threw = false;
			try
			{
				if (op == 0)
				{
					log.str("");
					if (mode == Mode::SINGLE_THREAD)
						e->execute(true, log);
					else
						e->execute(); // a log needs a stream that outlives the run
				}
				else
					e->execute();
			}
			catch (const ptne::PTN_Exception &)
			{
				threw = true;
			}
			VH_CHECK(threw == running, "execute", (threw ? "execute() threw while stopped, " : "execute() did not throw while running, ") << where());
			if (running) vh::count("execute_while_running");
			if (mode == Mode::SINGLE_THREAD)
			{
				net.w->mayRun = false;
				still = net.marking();
				for (int i = 0; i < net.n; ++i) VH_CHECK(still[3 * i + 2] == net.in[i], "not-run", "execute() returned at " << show(still) << ", " << where());
			}
			else
			{
				running = true;
				vh::count("starts");
			}
			VH_CHECK(e->isEventLoopRunning() == running, "state", "isEventLoopRunning() is wrong after execute(), " << where());
			break;
		}
		case 3:
		case 4:
		case 5: // stop
		{
			hist += " S";
			vh::describe(where());
			e->stop();
			net.w->mayRun = false;
			const Marking m = net.marking();
			VH_CHECK(!e->isEventLoopRunning(), "state", "running after stop(), " << where());
			if (!running && !still.empty()) VH_CHECK(m == still, "changed", "stop() on a stopped engine changed " << show(still) << " to " << show(m) << ", " << where());
			running = false;
			still = m;
			vh::count("stops");
			break;
		}
		case 6:
		case 7: // input
			hist += " i";
			net.put(r);
			if (!running && !still.empty()) still = net.marking();
			break;
		case 8: // wait until it is all done
			if (running)
			{
				hist += " w";
				vh::describe(where());
				net.outs->waitFor(net.total());
			}
			break;
		case 9: // nothing happens while stopped
			if (!running)
			{
				const Marking m = net.marking();
				const long ev = net.w->evals;
				std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
				VH_CHECK(net.marking() == m && net.w->evals == ev, "ran-while-stopped", "the marking went from " << show(m) << " to " << show(net.marking()) << " while stopped, " << where());
				vh::count("stopped_intervals_watched");
			}
			else
				std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
			break;
		case 10: // thread option
		{
			hist += " m";
			const Mode m2 = kModes[r.below(4)];
			bool threw = false;
			try
			{
				e->setActionsThreadOption(m2);
			}
			catch (const ptne::PTN_Exception &)
			{
				threw = true;
			}
			VH_CHECK(threw == running, "mode", "setActionsThreadOption " << (threw ? "threw while stopped, " : "was accepted while running, ") << where());
			if (!threw) mode = m2;
			VH_CHECK(e->getActionsThreadOption() == mode, "mode", "wrong thread option, " << where());
			hist += std::to_string((int)mode);
			break;
		}
		case 11:
			// a shorter period than the one being slept is used from the next wait on
			per = period(r);
			hist += " p" + std::to_string(per.count());
			e->setEventLoopSleepDuration(per);
			VH_CHECK(e->getEventLoopSleepDuration() == per, "period", where());
			break;
		case 12: // quick cycle
			if (!running && mode != Mode::SINGLE_THREAD)
			{
				const int n = (int)r.range(1, 12);
				hist += " c" + std::to_string(n);
				vh::describe(where());
				for (int k = 0; k < n; ++k)
				{
					net.w->mayRun = true;
					e->execute();
					if (r.chance(1, 3)) net.put(r);
					if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(100)));
					e->stop();
					net.w->mayRun = false;
				}
				still = net.marking();
				vh::count("starts", (uint64_t)n);
				vh::count("stops", (uint64_t)n);
			}
			break;
		case 13:
		{
			const std::string bad = net.conserved();
			if (!running) VH_CHECK(bad.empty(), "lost", bad << ", " << where());
			VH_CHECK(e->isEventLoopRunning() == running, "state", where());
			break;
		}
		}
	}
	const int end = (int)r.below(4);
	if (end == 0)
	{
		// destroyed as it is
		hist += running ? " destroyed running" : " destroyed";
		vh::describe(where());
		net.w->mayRun = true;
		e.reset();
		net.w->mayRun = false;
		const long ev = net.w->evals;
		std::this_thread::sleep_for(200us);
		VH_CHECK(net.w->evals == ev, "ran-after-destruction", where());
		vh::count(running ? "destroyed_running" : "destroyed_stopped");
	}
	else
	{
		// resumes from exactly there, and goes on to the end
		if (!running)
		{
			net.w->mayRun = true;
			e->execute();
		}
		hist += " end";
		vh::describe(where());
		net.outs->waitFor(net.total());
		e->stop();
		net.w->mayRun = false;
		const std::string bad = net.conserved();
		VH_CHECK(bad.empty(), "lost", bad << ", " << where());
		VH_CHECK(net.outs->value() == net.total(), "actions", where());
		vh::count("resumed_to_the_end");
	}
	noise::off();
	vh::count("histories");
	vh::distinct(vh::hcomb(h, net.in.size()));
	if (hist.size() > 120) vh::sample(where());
}

// Several threads call at the same time; the running state they observe is linearizable.
static void concurrent(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kModes[1 + r.below(3)];
	Net net(r, mode);
	auto &e = net.e;
	e->setEventLoopSleepDuration(period(r));
	net.w->strict = false;
	const int T = (int)r.range(2, 4);
	std::ostringstream d;
	d << "concurrent " << modeName(mode) << " threads=" << T << " period=" << e->getEventLoopSleepDuration().count();
	net.w->what = d.str();
	vh::describe(d.str());
	noise::configure(r.next(), (int)r.below(5), 40000);
	struct Op
	{
		int kind; // 0 execute ok, 1 execute threw, 2 stop, 3 running, 4 not running
		int64_t from, to;
	};
	std::vector<std::vector<Op>> ops(T);
	std::deque<std::atomic<size_t>> acc;
	for (int i = 0; i < net.n; ++i) acc.emplace_back(0);
	bool state = false;
	const int rounds = (int)r.range(1, 8);
	uint64_t h = (uint64_t)mode;
	for (int round = 0; round < rounds; ++round)
	{
		std::atomic<long> clock{ 0 };
		std::atomic<int> ready{ 0 };
		std::vector<std::thread> ts;
		for (int t = 0; t < T; ++t)
		{
			ops[t].clear();
			ts.emplace_back(
			[&, t, rng = vh::Rng(r.next())]() mutable
			{
				++ready;
				while (ready < T) std::this_thread::yield();
				for (int k = 0; k < 5; ++k)
				{
					Op o{};
					const int what = (int)rng.below(6);
					o.from = clock++;
					if (what < 2)
					{
						try
						{
							e->execute();
							o.kind = 0;
						}
						catch (const ptne::PTN_Exception &)
						{
							o.kind = 1;
						}
					}
					else if (what < 4)
					{
						e->stop();
						o.kind = 2;
					}
					else if (what < 5)
						o.kind = e->isEventLoopRunning() ? 3 : 4;
					else
					{
						const int i = (int)rng.below(net.n);
						e->incrementInputPlace("in" + std::to_string(i));
						++acc[i];
						clock++;
						continue;
					}
					o.to = clock++;
					ops[t].push_back(o);
					vh::tick();
				}
			});
		}
		for (auto &t : ts) t.join();
		// search for a legal order
		std::set<std::vector<int>> seen; // positions per thread + state
		std::set<bool> ends;
		std::function<void(std::vector<int> &, bool)> go = [&](std::vector<int> &pos, bool st)
		{
			std::vector<int> key = pos;
			key.push_back(st);
			if (!seen.insert(key).second) return;
			int64_t firstEnd = INT64_MAX;
			bool any = false;
			for (int t = 0; t < T; ++t)
				if (pos[t] < (int)ops[t].size())
				{
					any = true;
					firstEnd = std::min(firstEnd, ops[t][pos[t]].to);
				}
			if (!any)
			{
				ends.insert(st);
				return;
			}
			for (int t = 0; t < T; ++t)
			{
				if (pos[t] >= (int)ops[t].size()) continue;
				const Op &o = ops[t][pos[t]];
				if (o.from > firstEnd) continue;
				bool ok = false, next = st;
				switch (o.kind)
				{
				case 0: ok = !st; next = true; break;
				case 1: ok = st; break;
				case 2: ok = true; next = false; break;
				case 3: ok = st; break;
				case 4: ok = !st; break;
				}
				if (!ok) continue;
				++pos[t];
				go(pos, next);
				--pos[t];
			}
		};
		std::vector<int> pos(T, 0);
		go(pos, state);
		auto text = [&]
		{
			std::ostringstream o;
			static const char *names[] = { "execute", "execute!", "stop", "running", "stopped" };
			for (int t = 0; t < T; ++t)
			{
				o << " thread" << t << ":";
				for (auto &x : ops[t]) o << " " << names[x.kind] << "[" << x.from << "," << x.to << "]";
			}
			return o.str();
		};
		VH_CHECK(!ends.empty(), "not-linearizable", "no order of the calls explains their results, starting " << (state ? "running" : "stopped") << ":" << text() << " " << d.str());
		const bool now = e->isEventLoopRunning();
		VH_CHECK(ends.count(now), "not-linearizable", "the calls leave the loop " << (now ? "running" : "stopped") << ", which no order explains, starting " << (state ? "running" : "stopped") << ":" << text() << " " << d.str());
		state = now;
		for (auto &v : ops)
			for (auto &o : v) h = vh::hcomb(h, (uint64_t)o.kind);
		vh::count("concurrent_rounds");
	}
	for (int i = 0; i < net.n; ++i) net.in[i] += acc[i];
	if (r.chance(1, 4))
		e.reset();
	else
	{
		if (!state) e->execute();
		net.outs->waitFor(net.total());
		e->stop();
		const std::string bad = net.conserved();
		VH_CHECK(bad.empty(), "lost", bad << ", " << d.str());
	}
	noise::off();
	vh::distinct(h);
}

// stop() while a condition or action is busy, from another thread or an action; destruction at random instants.
static void busy(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kModes[1 + r.below(3)];
	const int how = (int)r.below(4);
	vh::Gate inGuard, release, in, outs;
	std::atomic<bool> holdGuard{ how == 0 };
	std::atomic<bool> stopped{ false };
	auto fired = std::make_shared<std::atomic<long>>(0);
	std::unique_ptr<PTN_Engine> e = std::make_unique<PTN_Engine>(mode);
	PTN_Engine *pe = e.get();
	std::ostringstream d;
	d << "busy " << modeName(mode) << " how=" << how;
	vh::describe(d.str());
	e->setEventLoopSleepDuration(period(r));
	const long n = (long)r.range(1, 50);
	e->createPlace({ .name = "a", .initialNumberOfTokens = (size_t)n, .input = true });
	e->createPlace({ .name = "b" });
	e->createTransition({ .name = "t",
						  .activationArcs = { { .placeName = "a" } },
						  .destinationArcs = { { .placeName = "b" } },
						  .additionalConditions = { [&]
													{
														if (stopped) vh::fail("ran-while-stopped", "evaluated after stop() had returned, " + d.str());
														if (holdGuard)
														{
															inGuard.add();
															release.waitFor(1);
														}
														return true;
													} } });
	std::thread other;
	if (how == 1 && mode != Mode::EVENT_LOOP)
		// an action stops the engine
		e->createPlace({ .name = "stopper", .onEnterAction = [&, pe] { pe->stop(); in.add(); }, .input = true });
	noise::configure(r.next(), (int)r.below(5), 20000);
	e->execute();
	switch (how)
	{
	case 0: // stop() while a condition is being evaluated: it waits for it, and nothing fires afterwards
	{
		inGuard.waitFor(1);
		other = std::thread(
		[&]
		{
			e->stop();
			stopped = true;
			in.add();
		});
		std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
		VH_CHECK(in.value() == 0, "stop-returned", "stop() returned while the loop was evaluating, " << d.str());
		holdGuard = false;
		release.add();
		in.waitFor(1);
		other.join();
		break;
	}
	case 1:
		if (mode != Mode::EVENT_LOOP)
		{
			e->incrementInputPlace("stopper");
			in.waitFor(1);
			VH_CHECK(!e->isEventLoopRunning(), "state", "running after an action's stop(), " << d.str());
			stopped = true;
			break;
		}
		[[fallthrough]];
	case 2: // stop from another thread at a random instant
		other = std::thread(
		[&, us = r.below(600)]
		{
			std::this_thread::sleep_for(std::chrono::microseconds(us));
			e->stop();
			stopped = true;
		});
		other.join();
		break;
	case 3: // destruction at a random instant
		std::this_thread::sleep_for(std::chrono::microseconds(r.below(600)));
		e.reset();
		stopped = true;
		break;
	}
	if (e)
	{
		const size_t a = e->getNumberOfTokens("a"), b = e->getNumberOfTokens("b");
		VH_CHECK((long)(a + b) == n, "lost", a << "+" << b << " of " << n << " " << d.str());
		std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
		VH_CHECK(e->getNumberOfTokens("a") == a && e->getNumberOfTokens("b") == b, "ran-while-stopped", d.str());
		VH_CHECK(!e->isEventLoopRunning(), "state", d.str());
		stopped = false;
		e->execute();
		VH_CHECK(vh::await([&] { return (long)e->getNumberOfTokens("b") == n; }, 20), "not-resumed", "after a restart " << e->getNumberOfTokens("b") << " of " << n << " " << d.str());
		e->stop();
		e->stop();
	}
	noise::off();
	vh::count("busy_stops");
	vh::distinct(vh::hcomb(r.next(), how));
}

// Nets that never come to rest: stop() and destruction do not wait for a pass that fires nothing.
static void perpetual(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kModes[1 + r.below(3)];
	auto evals = std::make_shared<std::atomic<long>>(0);
	auto mayRun = std::make_shared<std::atomic<bool>>(false);
	const int rings = (int)r.range(1, 3);
	std::vector<int> len;
	std::vector<size_t> tokens;
	std::ostringstream d;
	d << "perpetual " << modeName(mode) << " rings";
	auto e = std::make_unique<PTN_Engine>(mode);
	e->setEventLoopSleepDuration(period(r));
	const bool picky = r.chance(1, 3), acting = mode != Mode::DETACHED && r.chance(1, 2);
	auto acted = std::make_shared<std::atomic<long>>(0);
	for (int g = 0; g < rings; ++g)
	{
		len.push_back((int)r.range(1, 6));
		tokens.push_back((size_t)r.range(1, 4));
		d << " " << len[g] << "/" << tokens[g];
		for (int k = 0; k < len[g]; ++k)
		{
			ptne::PlaceProperties p{ .name = "r" + std::to_string(g) + "." + std::to_string(k), .initialNumberOfTokens = k ? 0 : tokens[g], .input = k == 0 };
			if (acting && k == 0 && g == 0) p.onEnterAction = [acted] { ++*acted; };
			e->createPlace(p);
		}
		for (int k = 0; k < len[g]; ++k)
			e->createTransition({ .name = "t" + std::to_string(g) + "." + std::to_string(k),
								  .activationArcs = { { .placeName = "r" + std::to_string(g) + "." + std::to_string(k) } },
								  .destinationArcs = { { .placeName = "r" + std::to_string(g) + "." + std::to_string((k + 1) % len[g]) } },
								  .additionalConditions = { [=]
															{
																if (!*mayRun) vh::fail("ran-while-stopped", "a net that never rests was evaluated while stopped");
																const long n = ++*evals;
																if (n % 64 == 0) vh::tick();
																return !picky || g == 0 || vh::mix((uint64_t)n) % 4 != 0; // ring 0 always moves
															} },
								  .requireNoActionsInExecution = false });
	}
	const std::string what = d.str();
	vh::describe(what);
	auto sum = [&](int g)
	{
		size_t n = 0;
		for (int k = 0; k < len[g]; ++k) n += e->getNumberOfTokens("r" + std::to_string(g) + "." + std::to_string(k));
		return n;
	};
	noise::configure(r.next(), (int)r.below(5), 20000);
	const int rounds = (int)r.range(1, r.chance(1, 8) ? 40 : 6);
	for (int round = 0; round < rounds; ++round)
	{
		*mayRun = true;
		const long from = *evals;
		e->execute();
		const long wanted = from + (r.chance(1, 3) ? 0 : (long)r.below(400));
		VH_CHECK(vh::await([&] { return *evals >= wanted; }, 60), "not-run", "a net that can always fire was evaluated " << *evals - from << " times, " << what);
		if (r.chance(1, 2))
		{
			const int g = (int)r.below(rings);
			e->incrementInputPlace("r" + std::to_string(g) + ".0");
			++tokens[g];
		}
		const bool destroy = round + 1 == rounds && r.chance(1, 2);
		std::atomic<bool> done{ false };
		std::thread other(
		[&]
		{
			if (destroy)
				e.reset();
			else
				e->stop();
			*mayRun = false;
			done = true;
		});
		VH_CHECK(vh::await([&] { return done.load(); }, 20, [&] { return evals->load(); }, 20000), "stop-hangs",
				 (destroy ? "the destructor" : "stop()") << " did not return within 20 s and 20000 evaluations of a net that never comes to rest, " << what);
		other.join();
		vh::count(destroy ? "restless_destroyed" : "restless_stops");
		if (destroy) break;
		VH_CHECK(!e->isEventLoopRunning(), "state", "running after stop(), " << what);
		for (int g = 0; g < rings; ++g) VH_CHECK(sum(g) == tokens[g], "lost", "ring " << g << " holds " << sum(g) << " of " << tokens[g] << " tokens, " << what);
	}
	noise::off();
	vh::distinct(vh::hcomb(vh::hcomb(r.next(), (uint64_t)rounds), (uint64_t)*evals));
}

// A great many starts and stops of one engine.
static void restarts(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kModes[1 + r.below(3)];
	auto e = std::make_unique<PTN_Engine>(mode);
	e->setEventLoopSleepDuration(1h);
	auto g = std::make_shared<vh::Gate>();
	e->createPlace({ .name = "in", .input = true });
	e->createPlace({ .name = "out", .onEnterAction = [g] { g->add(); } });
	e->createTransition({ .name = "t", .activationArcs = { { .placeName = "in" } }, .destinationArcs = { { .placeName = "out" } } });
	const long n = (long)r.range(1000, c.thorough ? 20000 : 3000);
	const std::string what = std::string("many restarts ") + modeName(mode) + " " + std::to_string(n);
	vh::describe(what);
	long put = 0;
	for (long k = 0; k < n; ++k)
	{
		e->execute();
		if (k % 100 == 99)
		{
			e->incrementInputPlace("in");
			g->waitFor(++put);
		}
		e->stop();
		if (k % 50 == 0) vh::tick();
	}
	VH_CHECK(e->getNumberOfTokens("out") == (size_t)put && e->getNumberOfTokens("in") == 0, "lost", what);
	vh::count("restarts_in_long_series", (uint64_t)n);
	vh::distinct(vh::hcomb(r.next(), (uint64_t)n));
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	if (c.index % 300 == 7) return restarts(c, r);
	const int k = (int)r.below(11);
	if (k < 5)
		history(c, r);
	else if (k < 8)
		concurrent(c, r);
	else if (k < 10)
		busy(c, r);
	else
		perpetual(c, r);
}
