// C05 - the watchdog re-evaluates guards every period, and only then.
// The monitor is a condition of an always enabled transition: it sees every evaluation pass.
#include "game.h"
#include <climits>
#include <cmath>
using namespace game;
const char *vh_property = "C05";
using namespace std::chrono_literals;
using ms = std::chrono::milliseconds;

static const Mode kThreaded[] = { Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

namespace
{
struct Probe
{
	mutable std::mutex m;
	std::vector<int64_t> t;
	void hit()
	{
		std::lock_guard l(m);
		if (t.size() < 2000000) t.push_back(vh::nowNs());
	}
	size_t n() const
	{
		std::lock_guard l(m);
		return t.size();
	}
	std::vector<int64_t> since(size_t k) const
	{
		std::lock_guard l(m);
		return { t.begin() + (long)k, t.end() };
	}
	//! evaluations in (from, to]
	size_t between(int64_t from, int64_t to) const
	{
		std::lock_guard l(m);
		size_t k = 0;
		for (auto x : t) k += x > from && x <= to;
		return k;
	}
};

//! The processor time used by the process, in ns.
int64_t cpuNs()
{
	timespec t;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
	return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec;
}

struct Rig
{
	Probe probe;
	const bool quiet; //!< no transition has the tokens it needs, so that no condition is evaluated
	std::atomic<bool> open{ false };
	std::atomic<int> fired{ 0 };
	std::unique_ptr<PTN_Engine> e;
	Rig(Mode m, bool named, int extra, bool q)
	: quiet(q)
	{
		e = std::make_unique<PTN_Engine>(m);
		e->createPlace({ .name = "held", .initialNumberOfTokens = quiet ? 0u : 1u });
		e->createPlace({ .name = "sink", .onEnterAction = [this] { ++fired; } });
		e->createPlace({ .name = "in", .input = true });
		e->createPlace({ .name = "in2", .onEnterAction = [] {}, .input = true });
		e->createPlace({ .name = "gate", .initialNumberOfTokens = quiet ? 0u : 1u });
		// sees every pass
		e->createTransition({ .name = "probe",
							  .activationArcs = { { .placeName = "held" } },
							  .additionalConditions = { [this]
														{
															probe.hit();
															return false;
														} } });
		ptne::TransitionProperties tp;
		tp.name = "guarded";
		tp.activationArcs = { { .placeName = "gate" } };
		tp.destinationArcs = { { .placeName = "gate" }, { .placeName = "sink" } };
		auto g = [this] { return open.exchange(false); };
		if (named)
		{
			e->registerCondition("open", g);
			tp.additionalConditionsNames = { "open" };
		}
		else
			tp.additionalConditions = { g };
		e->createTransition(tp);
		e->createTransition({ .name = "consume", .activationArcs = { { .placeName = "in" } } });
		for (int i = 0; i < extra; ++i)
			e->createTransition({ .name = "extra" + std::to_string(i),
								  .activationArcs = { { .placeName = "held" } },
								  .additionalConditions = { [] { return false; } } });
	}
};

std::string gaps(const std::vector<int64_t> &t)
{
	std::ostringstream o;
	for (size_t i = 1; i < t.size() && i < 14; ++i) o << (t[i] - t[i - 1]) / 1000 << "us ";
	return o.str();
}
} // namespace

void vh_case(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kThreaded[r.below(3)];
	const bool quiet = r.chance(1, 3);
	Rig g(mode, r.chance(1, 2), (int)r.below(4), quiet);
	PTN_Engine &e = *g.e;
	static const int durations[] = { 1, 2, 3, 5, 8, 13, 20, 40 };
	// get returns the last value set, whatever the value
	VH_CHECK(e.getEventLoopSleepDuration() == 100ms, "get", "a new engine's period is " << e.getEventLoopSleepDuration().count());
	for (int i = 0; i < 3; ++i)
	{
		static const long any[] = { 0, 1, 99, 100, 101, 1000, 65536, 3600000, 86400000, 9223372036854, 9223372036855, LONG_MAX - 1, LONG_MAX };
		const ms v{ r.chance(1, 2) ? any[r.below(std::size(any))] : (long)r.below(100000) };
		e.setEventLoopSleepDuration(v);
		VH_CHECK(e.getEventLoopSleepDuration() == v, "get", "set " << v.count() << " got " << e.getEventLoopSleepDuration().count());
	}
	uint64_t h = vh::hcomb((uint64_t)mode, r.next());
	std::ostringstream d;
	d << modeName(mode) << (quiet ? " nothing enabled" : "");
	const int rounds = (int)r.range(1, 3);
	ms current{ 0 };
	bool running = false;
	// a loop that spins uses its processor all the time; load makes the share smaller, never larger
	auto asleep = [&](ms D)
	{
		if (D < 5ms) return;
		double share = 1;
		for (int attempt = 0; attempt < 6 && share > 0.6; ++attempt)
		{
			const int64_t w0 = vh::nowNs(), c0 = cpuNs();
			std::this_thread::sleep_for(20ms);
			const int64_t c1 = cpuNs(), w1 = vh::nowNs();
			share = (double)(c1 - c0) / (double)(w1 - w0);
		}
		VH_CHECK(share <= 0.6, "busy", "the idle engine with a period of " << D.count() << " ms uses its processor at " << share * 100 << " percent; " << d.str());
		vh::count("idle_periods_without_evaluations");
	};
	for (int round = 0; round < rounds; ++round)
	{
		const ms D{ durations[r.below(8)] };
		const int64_t Dns = D.count() * 1000000;
		d << " D=" << D.count();
		vh::describe(d.str());
		if (running && r.chance(1, 2))
		{
			// change it while running, and make the loop start a new period
			e.setEventLoopSleepDuration(D);
			e.incrementInputPlace("in2");
			d << "(while running)";
		}
		else
		{
			if (running) e.stop();
			// inputs on the stopped engine do not keep it busy later
			if (r.chance(1, 3))
			{
				e.incrementInputPlace("in2");
				d << "(input while stopped)";
			}
			e.setEventLoopSleepDuration(D);
			e.execute();
			running = true;
		}
		current = D;
		VH_CHECK(e.getEventLoopSleepDuration() == D, "get", "set " << D.count() << " while running, got " << e.getEventLoopSleepDuration().count());
		vh::describe(d.str());

		// (1) polling: a condition that becomes true with no input is noticed
		const int flips = quiet ? 0 : (int)r.range(1, 3);
		for (int k = 0; k < flips; ++k)
		{
			const int before = g.fired;
			g.open = true;
			VH_CHECK(vh::await([&] { return g.fired > before; }, 20), "not-polled",
					 "a condition that became true was not noticed in 20 s with a period of " << D.count() << " ms (evaluations "
																							 << g.probe.n() << ") " << d.str());
			vh::count("condition_changes_noticed");
		}

		if (quiet)
		{
			// nothing but the processor time tells that the loop sleeps
			if (r.chance(2, 3)) e.incrementInputPlace("in2");
			if (r.chance(1, 3)) e.incrementInputPlace("in");
			asleep(D);
			h = vh::hcomb(h, (uint64_t)D.count());
			continue;
		}

		// (2) the period: idle, and not faster than the period
		std::this_thread::sleep_for(std::chrono::microseconds(500)); // let the pass after the firing end
		const int want = (int)r.range(4, 8);
		bool slowOk = false;
		for (int attempt = 0; attempt < 4 && !slowOk; ++attempt)
		{
			// the previous pass may have been caused by the firing: start counting at the next poll
			size_t n0 = g.probe.n();
			VH_CHECK(vh::await([&] { return g.probe.n() >= n0 + 2; }, 20), "not-polled",
					 "no two evaluations in 20 s with a period of " << D.count() << " ms " << d.str());
			n0 = g.probe.n() - 1;
			VH_CHECK(vh::await([&] { return g.probe.n() >= n0 + (size_t)want + 1; }, 30), "not-polled",
					 "no " << want << " evaluations in 30 s with a period of " << D.count() << " ms " << d.str());
			const auto t = g.probe.since(n0);
			for (size_t k = 2; k < t.size(); ++k)
				VH_CHECK(t[k] - t[k - 2] >= Dns, "too-often",
						 "three evaluations within " << (t[k] - t[k - 2]) / 1000 << " us while idle with a period of " << D.count() << " ms; gaps "
													 << gaps(t) << d.str());
			VH_CHECK(t.back() - t.front() >= (int64_t)(t.size() - 2) * Dns, "too-often",
					 t.size() << " evaluations within " << (t.back() - t.front()) / 1000 << " us while idle with a period of " << D.count()
							  << " ms; gaps " << gaps(t) << d.str());
			// not slower: the shortest of the observed gaps is close to the period. Load makes gaps longer, so retry.
			int64_t shortest = INT64_MAX;
			for (size_t k = 1; k < t.size(); ++k) shortest = std::min(shortest, t[k] - t[k - 1]);
			slowOk = shortest <= Dns + std::max<int64_t>(Dns / 2, 15000000);
			if (!slowOk && attempt == 3)
				vh::fail("too-slow", "the shortest of the gaps between evaluations is " + std::to_string(shortest / 1000) +
									 " us with a period of " + std::to_string(D.count()) + " ms, in four series; " + gaps(t) + d.str());
			vh::count("idle_evaluations_observed", t.size());
		}
		h = vh::hcomb(h, (uint64_t)D.count() * 10 + flips);
	}

	// (3) no busy waiting after stimuli, with a period that never elapses here
	{
		// for ever, where it does not fit a time point
		static const long never[] = { 3600000, 3600000, 86400000, 8640000000, 9223372036854, 9223372036855, LONG_MAX / 2, LONG_MAX };
		const ms period{ never[r.below(std::size(never))] };
		if (period > 24h * 365) vh::count("periods_of_centuries");
		d << " D=" << period.count();
		vh::describe(d.str());
		if (r.chance(1, 2))
		{
			e.stop();
			e.setEventLoopSleepDuration(period);
			if (r.chance(1, 2)) e.incrementInputPlace(r.chance(1, 2) ? "in" : "in2");
			e.execute();
		}
		else
		{
			// takes effect with the next period
			e.setEventLoopSleepDuration(period);
			e.incrementInputPlace("in2");
		}
		// setting it again during that hour must not wait for it to elapse: a blocked call is a stuck run
		const size_t e0 = g.probe.n();
		const int stimuli = (int)r.range(0, 6);
		int firings = 0;
		for (int k = 0; k < stimuli; ++k)
		{
			const int what = (int)r.below(6);
			try
			{
				switch (what)
				{
				case 0: e.incrementInputPlace("in"); ++firings; break;
				case 1: e.incrementInputPlace("in2"); break;
				case 2: e.setEventLoopSleepDuration(ms(period.count() - (long)r.below(1000))); break;
				case 3: e.incrementInputPlace("held"); break;
				case 4: e.getNumberOfTokens("in"); break;
				case 5: e.getEventLoopSleepDuration(); break;
				}
			}
			catch (const ptne::PTN_Exception &)
			{
			}
			if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
		}
		std::this_thread::sleep_for(10ms);
		const size_t evals = g.probe.n() - e0;
		// each start, input and firing may cause a pass, and each may be followed by one more
		const size_t limit = 4 + 2 * (size_t)stimuli + 2 * (size_t)firings + 2;
		VH_CHECK(evals <= limit, "busy", evals << " evaluations with a period of hours after " << stimuli << " stimuli and " << firings
											   << " firings " << d.str());
		if (quiet)
		{
			asleep(3600000ms);
			vh::count("nets_with_nothing_enabled");
		}
		vh::count("stimuli_with_period_of_one_hour", (uint64_t)stimuli);
		h = vh::hcomb(h, (uint64_t)stimuli);
	}
	e.stop();
	vh::distinct(h);
	if (rounds == 3) vh::sample(d.str());
}
