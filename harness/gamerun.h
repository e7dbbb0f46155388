#pragma once
// One engine built from a generated net, observed through its actions and conditions.
#include "game.h"

namespace game
{
struct GuardFn
{
	uint64_t c = 0, a = 1, m = 2;
	bool fixed = false;
	bool eval(size_t pos) const
	{
		return fixed ? (c % 4 != 0) : (((pos + c) / a) % m != 0);
	}
};

class GameRun
{
public:
	struct Options
	{
		Mode mode = Mode::SINGLE_THREAD;
		size_t fuel = 60;        //!< bound on action events (fuel guard) or firings (fuel place)
		bool fuelPlace = false;
		bool shuffledBuild = true;
		long sleepMs = 1;
		GenOpts gen;
	};

	GameRun(Rng rng, const Options &o, const std::string &tag = "")
	: m_rng(rng)
	, m_o(o)
	, m_async(o.mode == Mode::JOB_QUEUE || o.mode == Mode::DETACHED)
	, m_tag(tag)
	{
		GenOpts g = o.gen;
		if (m_async && !g.markers) g.markers = true;
		if (o.mode == Mode::DETACHED) g.resets = false;
		Gen gen = randomNet(m_rng, g);
		net = gen.net;
		markers = g.markers;
		nPlain = gen.nPlain;
		for (int i = 0; i < g.numGuards; ++i)
		{
			GuardFn f;
			f.c = m_rng.below(1000);
			f.a = 1 + m_rng.below(4);
			f.m = 2 + m_rng.below(3);
			f.fixed = m_async || m_rng.chance(1, 4);
			guards.push_back(f);
		}
		if (o.fuelPlace || m_async)
		{
			PlaceS p;
			p.name = "fuel";
			p.init = o.fuel;
			p.enter = false;
			p.exit = !markers; // every firing has to be observable
			net.P.push_back(p);
			for (auto &t : net.T)
				t.act.insert(t.act.begin() + (long)m_rng.below(t.act.size() + 1), ArcS{ (int)net.P.size() - 1, 1 });
			fuelPlace = (int)net.P.size() - 1;
		}
		else
		{
			for (auto &t : net.T) t.guards.insert(t.guards.begin() + (long)m_rng.below(t.guards.size() + 1), -1);
		}
		m_fuelLimit = o.fuel;
		engine = std::make_unique<PTN_Engine>(o.mode);
		Callbacks cb;
		cb.enter = [this](int p) -> ptne::ActionFunction { return [this, p] { onAction(Event::ENTER, p); }; };
		cb.exit = [this](int p) -> ptne::ActionFunction { return [this, p] { onAction(Event::EXIT, p); }; };
		cb.guard = [this](int t, int k) -> ptne::ConditionFunction
		{ return [this, g = net.T[t].guards[k]] { return evalGuard(g); }; };
		build(*engine, net, cb, o.shuffledBuild ? &m_rng : nullptr);
		if (o.mode != Mode::SINGLE_THREAD)
		{
			engine->setEventLoopSleepDuration(std::chrono::milliseconds(o.sleepMs));
			engine->createPlace({ .name = "sentinel place", .initialNumberOfTokens = 1 });
			ptne::TransitionProperties tp;
			tp.name = "sentinel";
			tp.activationArcs = { { .placeName = "sentinel place" } };
			tp.additionalConditions = { [this]
										{
											passes.add();
											return false;
										} };
			engine->createTransition(tp);
		}
		marking = initial(net);
	}

	~GameRun()
	{
		engine.reset();
	}

	bool guardValue(int g, size_t pos) const
	{
		if (g == -1) return pos < m_fuelLimit;
		return guards[g].eval(pos);
	}
	bool guardsTrue(int t, size_t pos) const
	{
		for (int g : net.T[t].guards)
			if (!guardValue(g, pos)) return false;
		return true;
	}

	std::string describe() const
	{
		return m_tag + modeName(m_o.mode) + " " + show(net) + " M" + show(marking);
	}

	//! Add tokens while nothing runs.
	void increments(int n)
	{
		std::vector<int> inputs;
		for (int i = 0; i < nPlain; ++i)
			if (net.P[i].input) inputs.push_back(i);
		if (inputs.empty()) return;
		long expect = 0;
		{
			std::lock_guard l(m_m);
			m_inc = true;
			expect = (long)m_events.size();
		}
		for (int k = 0; k < n; ++k)
		{
			const int p = inputs[m_rng.below(inputs.size())];
			if (marking[p] > SIZE_MAX - 1000) continue;
			m_expectPlace = p;
			engine->incrementInputPlace(net.P[p].name);
			if (!net.P[p].enter)
			{
				std::lock_guard l(m_m);
				m_events.push_back({ Event::INC, p });
				m_gate.add();
			}
			++expect;
			++incs;
		}
		waitEvents(expect);
		std::lock_guard l(m_m);
		m_inc = false;
	}

	//! Run until the net is at rest, check the observed run against the token game.
	void runAndCheck(bool log = false, std::ostream *os = nullptr)
	{
		const size_t before = m_checked;
		if (m_o.mode == Mode::SINGLE_THREAD)
		{
			if (os)
				engine->execute(log, *os);
			else
				engine->execute();
		}
		else
		{
			if (os)
				engine->execute(log, *os);
			else
				engine->execute();
			rest();
			engine->stop();
		}
		check(before);
	}

	//! Wait until a running threaded engine is at rest.
	void rest()
	{
		for (;;)
		{
			const Marking m1 = observe(*engine, net);
			const long want = m_async ? expectedEvents(m1) : eventCount();
			if (m_async) waitEvents(want);
			const long p = passes.value();
			passes.waitFor(p + 3);
			const Marking m2 = observe(*engine, net);
			if (m1 == m2 && eventCount() == want)
			{
				passes.waitFor(p + 6);
				if (observe(*engine, net) == m2 && eventCount() == want)
				{
					// actions that have run may not be accounted as finished yet
					if (!m_async || !anyEnabled(m2, (size_t)want) ||
						!vh::await([&] { return observe(*engine, net) != m2; }, 20, [this] { return passes.value(); }, 1000))
						return;
				}
			}
			else if (m_async && eventCount() > expectedEvents(m2))
			{
				// more actions than the token moves account for, unless a firing is under way
				const long n = eventCount();
				const Marking m3 = observe(*engine, net);
				passes.waitFor(passes.value() + 3);
				if (n > expectedEvents(m3) && m3 == observe(*engine, net))
					vh::fail("extra-actions", "more actions ran than the token moves account for: " + std::to_string(n) + " > " +
											  std::to_string(expectedEvents(m3)) + " " + describe());
			}
		}
	}

	bool anyEnabled(const Marking &m, size_t pos) const
	{
		for (size_t t = 0; t < net.T.size(); ++t)
			if (tokenEnabled(net.T[t], m) && guardsTrue((int)t, pos)) return true;
		return false;
	}

	long eventCount() const
	{
		return m_gate.value();
	}

	//! number of action/inc events that the marker counts (total firings per transition) imply
	long expectedEvents(const Marking &m) const
	{
		long n = incs;
		for (size_t t = 0; t < net.T.size(); ++t)
		{
			const size_t f = m[nPlain + t];
			n += (long)(f * sigLen(net.T[t]));
		}
		return n;
	}

	size_t sigLen(const TransS &t) const
	{
		size_t n = 0;
		for (auto &a : t.act) n += net.P[a.place].exit;
		for (auto &a : t.dest) n += net.P[a.place].enter;
		return n;
	}

	void check(size_t from)
	{
		std::vector<Event> all;
		{
			std::lock_guard l(m_m);
			all = m_events;
		}
		const std::vector<Event> ev(all.begin() + (long)from, all.end());
		const Marking now = observe(*engine, net);
		lastEvents = ev;
		if (m_o.mode == Mode::DETACHED)
			checkUnordered(ev, now);
		else
		{
			auto r = replay(net, marking, ev, [&](int t, size_t pos) { return guardsTrue(t, from + pos); });
			if (r.tooMany)
			{
				vh::count("inconclusive_ambiguous_runs");
			}
			else
			{
				if (!r.ok)
					vh::fail("illegal-run", "the observed actions are not explained by legal firings; first unexplained event " +
											std::to_string(r.stuckAt) + ": " + show(net, ev, r.stuckAt, r.stuckAt + 12) + " at marking " +
											show(r.lastGood) + " after " + show(net, ev, r.stuckAt > 12 ? r.stuckAt - 12 : 0, r.stuckAt) +
											" of " + describe());
				if (!r.finals.count(now))
					vh::fail("wrong-marking", "observed marking " + show(now) + " is not the one the observed firings lead to, e.g. " +
											  show(*r.finals.begin()) + " events " + show(net, ev, 0, 60) + " of " + describe());
				firings += r.firings;
			}
		}
		if (markers)
			for (size_t t = 0; t < net.T.size(); ++t)
				fired.insert(now[nPlain + t] > 0 ? (int)t : -1);
		// at rest: nothing may be able to fire
		for (size_t t = 0; t < net.T.size(); ++t)
			if (tokenEnabled(net.T[t], now) && guardsTrue((int)t, all.size()))
				vh::fail("not-quiescent", "the net came to rest although " + net.T[t].name + " is enabled at " + show(now) + " of " + describe());
		m_checked = all.size();
		marking = now;
	}

	size_t totalEvents() const
	{
		std::lock_guard l(m_m);
		return m_events.size();
	}

	NetS net;
	int nPlain = 0;
	int fuelPlace = -1;
	bool markers = false;
	std::vector<GuardFn> guards;
	std::unique_ptr<PTN_Engine> engine;
	Marking marking;               //!< last checked marking
	vh::Gate passes;
	std::vector<Event> lastEvents; //!< events of the last checked run
	size_t firings = 0;
	long incs = 0;
	std::set<int> fired;

private:
	void onAction(Event::Kind k, int p)
	{
		{
			std::lock_guard l(m_m);
			if (m_inc) k = Event::INC;
			m_events.push_back({ k, p });
		}
		vh::tick();
		m_gate.add();
	}

	bool evalGuard(int g)
	{
		size_t pos;
		{
			std::lock_guard l(m_m);
			pos = m_events.size();
		}
		++guardEvals;
		return guardValue(g, pos);
	}

	void waitEvents(long n)
	{
		if (!vh::await([&] { return m_gate.value() >= n; }, 20, [this] { return passes.value(); }))
			vh::fail("missing-actions", "only " + std::to_string(m_gate.value()) + " of " + std::to_string(n) +
										" actions accounted for by the token moves ever ran, of " + describe());
	}

	void checkUnordered(const std::vector<Event> &ev, const Marking &now)
	{
		std::map<std::pair<int, int>, long> want, got;
		Marking m = marking;
		for (auto &e : ev)
			if (e.kind == Event::INC)
				++m[e.place];
			else
				++got[{ e.kind, e.place }];
		std::vector<size_t> sum(m.begin(), m.end());
		for (size_t t = 0; t < net.T.size(); ++t)
		{
			const size_t f = now[nPlain + t] - marking[nPlain + t];
			firings += f;
			for (auto &a : net.T[t].act)
			{
				sum[a.place] -= f * a.w;
				if (f && net.P[a.place].exit) want[{ Event::EXIT, a.place }] += (long)f;
			}
			for (auto &a : net.T[t].dest)
			{
				sum[a.place] += f * a.w;
				if (f && net.P[a.place].enter) want[{ Event::ENTER, a.place }] += (long)f;
			}
		}
		if (sum != now)
			vh::fail("wrong-marking", "marking " + show(now) + " differs from the state equation " + show(sum) + " of " + describe());
		if (want != got)
			vh::fail("illegal-run", "the actions that ran are not those of the firings that happened, of " + describe());
	}

	Rng m_rng;
	Options m_o;
	bool m_async;
	std::string m_tag;
	mutable std::mutex m_m;
	std::vector<Event> m_events;
	vh::Gate m_gate;
	bool m_inc = false;
	int m_expectPlace = -1;
	size_t m_fuelLimit = 0;
	size_t m_checked = 0;

public:
	std::atomic<size_t> guardEvals{ 0 };
};
} // namespace game
