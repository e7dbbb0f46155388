#pragma once
// A random net driven by concurrent producers, with stop/execute cycles and mode switches.
// Observations: accepted increments per place, actions run per place, marking at rest,
// firings per transition (its private marker place). Oracle: the state equation.
#include "game.h"
#include <array>
#include <deque>

namespace game
{
class ConcRun
{
public:
	struct Options
	{
		std::vector<Mode> modes{ Mode::JOB_QUEUE }; //!< one phase per entry
		int producers = 3;
		int incs = 60;             //!< per producer and phase
		int toggles = 0;           //!< stop/execute cycles per phase
		size_t fuel = 300;
		int slowActionsUs = 0;     //!< sleep inside asynchronous actions, up to
		int actionIncs = 0;        //!< increments made by actions (asynchronous modes only)
		bool invalidCalls = true;
		int readers = 0;
		bool drainBetween = true;  //!< bring the net to rest between phases
		int spreadUs = 30;         //!< pause between the producers' calls, up to
		GenOpts gen;
		bool fuelEach = false;     //!< each transition has its own fuel place
		std::function<void(ConcRun &, int, bool, bool)> hook; //!< in actions: place, enter?, begin?
	};

	static GenOpts defaults()
	{
		GenOpts g;
		g.resets = false;
		g.markers = true;
		return g;
	}

	ConcRun(Rng rng, const Options &o)
	: m_rng(rng)
	, m_o(o)
	{
		GenOpts go = o.gen;
		go.resets = false;
		go.markers = true;
		Gen gen = randomNet(m_rng, go);
		net = gen.net;
		nPlain = gen.nPlain;
		bool any = false;
		for (int i = 0; i < nPlain; ++i) any |= net.P[i].input;
		if (!any) net.P[0].input = true;
		PlaceS f;
		f.name = "fuel";
		f.init = o.fuel;
		f.enter = f.exit = false;
		net.P.push_back(f);
		fuelPlace = (int)net.P.size() - 1;
		for (size_t i = 0; i < net.T.size(); ++i)
		{
			auto &t = net.T[i];
			if (o.fuelEach)
			{
				f.name = "fuel" + std::to_string(i);
				f.init = 1 + o.fuel / net.T.size();
				net.P.push_back(f);
			}
			fuelOf.push_back((int)net.P.size() - 1);
			t.act.insert(t.act.begin() + (long)m_rng.below(t.act.size() + 1), ArcS{ fuelOf.back(), 1 });
		}
		for (int i = 0; i < go.numGuards; ++i) m_guardValues.push_back(m_rng.chance(4, 5));
		for (size_t i = 0; i < net.P.size(); ++i)
		{
			entered.emplace_back(0);
			exited.emplace_back(0);
			accepted.emplace_back(0);
			inputsOnly.push_back(net.P[i].input);
		}
		for (int i = 0; i < nPlain; ++i)
			if (net.P[i].input) inputs.push_back(i);
		m_actionIncsLeft = o.actionIncs;
		engine = std::make_unique<PTN_Engine>(o.modes[0]);
		Callbacks cb;
		cb.enter = [this](int p) -> ptne::ActionFunction { return [this, p] { onAction(p, true); }; };
		cb.exit = [this](int p) -> ptne::ActionFunction { return [this, p] { onAction(p, false); }; };
		cb.guard = [this](int t, int k) -> ptne::ConditionFunction
		{ return [v = m_guardValues[net.T[t].guards[k]]] { return v; }; };
		build(*engine, net, cb, &m_rng);
		engine->setEventLoopSleepDuration(std::chrono::milliseconds(1));
		engine->createPlace({ .name = "sentinel place", .initialNumberOfTokens = 1 });
		ptne::TransitionProperties tp;
		tp.name = "sentinel";
		tp.activationArcs = { { .placeName = "sentinel place" } };
		tp.additionalConditions = { [this]
									{
										passes.add();
										return false;
									} };
		engine->createTransition(tp);
	}

	~ConcRun()
	{
		engine.reset();
	}

	std::string describe() const
	{
		std::string s;
		for (auto m : m_o.modes) s += std::string(modeName(m)) + " ";
		return s + "producers=" + std::to_string(m_o.producers) + "x" + std::to_string(m_o.incs) + " toggles=" + std::to_string(m_o.toggles) +
			   " phase=" + std::to_string(phase) + " " + show(net);
	}

	//! one phase: returns with the engine stopped; at rest if drain
	void runPhase(int i, bool drain)
	{
		phase = i;
		const Mode mode = m_o.modes[i];
		m_mode = mode;
		if (i > 0) engine->setActionsThreadOption(mode);
		vh::describe(describe());
		const bool threaded = mode != Mode::SINGLE_THREAD;
		std::atomic<bool> stopAux{ false };
		std::vector<std::thread> ps, aux;
		if (threaded && m_rng.chance(3, 4)) engine->execute();
		for (int k = 0; k < m_o.producers; ++k)
			ps.emplace_back([this, rng = Rng(m_rng.next())]() mutable { produce(rng); });
		for (int k = 0; k < m_o.readers; ++k)
			aux.emplace_back(
			[this, &stopAux, rng = Rng(m_rng.next())]() mutable
			{
				std::ostringstream os;
				while (!stopAux)
				{
					switch (rng.below(4))
					{
					case 0: engine->getNumberOfTokens(net.P[rng.below(net.P.size())].name); break;
					case 1: engine->getPlacesProperties(); break;
					case 2: os.str(""); engine->printState(os); break;
					case 3: engine->getTransitionsProperties(); break;
					}
					std::this_thread::sleep_for(std::chrono::microseconds(rng.below(300)));
				}
			});
		if (threaded)
		{
			for (int k = 0; k < m_o.toggles; ++k)
			{
				std::this_thread::sleep_for(std::chrono::microseconds(m_rng.below(m_o.incs * (m_o.spreadUs + 10) / (m_o.toggles + 1) + 100)));
				if (engine->isEventLoopRunning())
					engine->stop();
				else
					engine->execute();
			}
		}
		else
		{
			while (std::any_of(ps.begin(), ps.end(), [](auto &) { return true; }) && m_producersDone < m_o.producers)
			{
				engine->execute();
				std::this_thread::sleep_for(std::chrono::microseconds(m_rng.below(200)));
			}
		}
		for (auto &t : ps) t.join();
		m_producersDone = 0;
		if (drain)
		{
			if (threaded)
			{
				if (!engine->isEventLoopRunning()) engine->execute();
				rest();
			}
			else
			{
				for (;;)
				{
					engine->execute();
					const Marking m = observe(*engine, net);
					if (!awaitActions(m)) break;
					if (observe(*engine, net) != m) continue;
					if (enabledAt(m).empty()) break;
					if (!vh::await(
						[&]
						{
							engine->execute();
							return observe(*engine, net) != m;
						},
						10))
						break;
				}
			}
		}
		stopAux = true;
		for (auto &t : aux) t.join();
		if (engine->isEventLoopRunning()) engine->stop();
		marking = observe(*engine, net);
	}

	//! the net at rest: same marking over several passes, with every pending action finished
	void rest()
	{
		for (;;)
		{
			const Marking m1 = observe(*engine, net);
			if (!awaitActions(m1)) return;
			const long p = passes.value();
			if (!waitPasses(p + 4)) return;
			if (observe(*engine, net) != m1) continue;
			if (actionsRun == expectedActions(m1))
			{
				// an action has run, but may not be accounted as finished yet
				if (enabledAt(m1).empty() || !vh::await([&] { return observe(*engine, net) != m1; }, 20, [this] { return passes.value(); }, 1000)) return;
				continue;
			}
			// more actions than accounted for: let it settle and leave the verdict to actionCounts()
			const long before = actionsRun;
			if (!waitPasses(p + 60)) return;
			if (observe(*engine, net) == m1 && actionsRun == before && before > expectedActions(m1)) return;
		}
	}

	bool waitPasses(long n)
	{
		return vh::await([&] { return passes.value() >= n; }, 30);
	}

	//! wait for all the actions accounted for by the marking; false if they never ran
	bool awaitActions(const Marking &m)
	{
		return vh::await([&] { return actionsRun >= expectedActions(m) || observe(*engine, net) != m; }, 15);
	}

	long expectedActions(const Marking &m) const
	{
		long n = 0;
		for (size_t t = 0; t < net.T.size(); ++t)
		{
			long s = 0;
			for (auto &a : net.T[t].act) s += net.P[a.place].exit;
			for (auto &a : net.T[t].dest) s += net.P[a.place].enter;
			n += (long)m[nPlain + t] * s;
		}
		for (int p : inputs)
			if (net.P[p].enter) n += accepted[p];
		return n;
	}

	std::string stateEquation() const
	{
		Marking want = initial(net);
		for (size_t p = 0; p < want.size(); ++p) want[p] += accepted[p];
		for (size_t t = 0; t < net.T.size(); ++t)
		{
			const size_t f = marking[nPlain + t];
			for (auto &a : net.T[t].act) want[a.place] -= f * a.w;
			for (auto &a : net.T[t].dest) want[a.place] += f * a.w;
		}
		if (want == marking) return "";
		return "marking " + show(marking) + " but initial tokens + accepted increments + firings give " + show(want);
	}

	std::string actionCounts() const
	{
		std::ostringstream o;
		for (size_t p = 0; p < net.P.size(); ++p)
		{
			long e = accepted[p], x = 0;
			for (size_t t = 0; t < net.T.size(); ++t)
			{
				const long f = (long)marking[nPlain + t];
				for (auto &a : net.T[t].act)
					if (a.place == (int)p) x += f;
				for (auto &a : net.T[t].dest)
					if (a.place == (int)p) e += f;
			}
			if (net.P[p].enter && e != entered[p])
				o << "place " << net.P[p].name << ": " << e << " enter actions triggered but " << entered[p] << " ran. ";
			if (net.P[p].exit && x != exited[p])
				o << "place " << net.P[p].name << ": " << x << " exit actions triggered but " << exited[p] << " ran. ";
		}
		return o.str();
	}

	std::string enabledAt(const Marking &m) const
	{
		for (auto &t : net.T)
		{
			bool g = true;
			for (int k : t.guards) g = g && m_guardValues[k];
			if (g && tokenEnabled(t, m)) return t.name + " is enabled at " + show(m);
		}
		return "";
	}
	std::string quiescent() const
	{
		return enabledAt(marking);
	}

	size_t firings() const
	{
		size_t n = 0;
		for (size_t t = 0; t < net.T.size(); ++t) n += marking[nPlain + t];
		return n;
	}
	long acceptedTotal() const
	{
		long n = 0;
		for (auto &a : accepted) n += a;
		return n;
	}

	NetS net;
	int nPlain = 0, fuelPlace = 0, phase = 0;
	std::vector<int> fuelOf;       //!< fuel place of each transition
	std::deque<std::atomic<long>> entered, exited, accepted;
	std::vector<bool> inputsOnly;
	std::vector<int> inputs;
	std::atomic<long> actionsRun{ 0 };
	std::unique_ptr<PTN_Engine> engine;
	Marking marking;
	vh::Gate passes;
	std::atomic<long> rejected{ 0 };

private:
	void produce(Rng &rng)
	{
		for (int i = 0; i < m_o.incs; ++i)
		{
			if (m_o.invalidCalls && rng.chance(1, 12))
			{
				try
				{
					engine->incrementInputPlace(rng.chance(1, 2) ? "no such place" : net.P[fuelPlace].name);
					vh::fail("accepted-invalid", "incrementInputPlace of an unknown or non-input place did not throw");
				}
				catch (const ptne::PTN_Exception &)
				{
					++rejected;
				}
				continue;
			}
			const int p = inputs[rng.below(inputs.size())];
			engine->incrementInputPlace(net.P[p].name);
			++accepted[p];
			vh::tick();
			if (m_o.spreadUs) std::this_thread::sleep_for(std::chrono::microseconds(rng.below(m_o.spreadUs + 1)));
		}
		++m_producersDone;
	}

	void onAction(int p, bool enter)
	{
		const Mode mode = m_mode;
		const bool async = mode == Mode::JOB_QUEUE || mode == Mode::DETACHED;
		const uint64_t n = ++m_actionSeq;
		if (async && m_o.hook) m_o.hook(*this, p, enter, true);
		if (async && m_o.slowActionsUs) std::this_thread::sleep_for(std::chrono::microseconds(vh::mix(n) % m_o.slowActionsUs));
		if (async && m_actionIncsLeft > 0 && vh::mix(n * 7) % 3 == 0 && m_actionIncsLeft.fetch_sub(1) > 0)
		{
			const int q = inputs[vh::mix(n * 13) % inputs.size()];
			engine->incrementInputPlace(net.P[q].name);
			++accepted[q];
		}
		if (async && m_o.hook) m_o.hook(*this, p, enter, false);
		++(enter ? entered : exited)[p];
		vh::tick();
		++actionsRun;
	}

	Rng m_rng;
	Options m_o;
	std::vector<bool> m_guardValues;
	std::atomic<int> m_producersDone{ 0 };
	std::atomic<int> m_actionIncsLeft{ 0 };
	std::atomic<uint64_t> m_actionSeq{ 0 };
	std::atomic<Mode> m_mode{ Mode::JOB_QUEUE };
};
} // namespace game
