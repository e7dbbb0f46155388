// C04 - an input wakes an idle event loop. The watchdog period is one hour, and the waiting thread
// blocks without timeout: a lost wake-up leaves every thread of the process asleep.
#include "game.h"
using namespace game;
const char *vh_property = "C04";
using namespace std::chrono_literals;

static const Mode kThreaded[] = { Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

static void spinNs(int64_t ns)
{
	const int64_t end = vh::nowNs() + ns;
	while (vh::nowNs() < end)
		;
}

void vh_case(vh::Case &c, vh::Rng &r)
{
	const Mode mode = kThreaded[r.below(3)];
	PTN_Engine e(mode);
	const std::chrono::milliseconds periods[] = { 3600000ms, 86400000ms, 600000ms, std::chrono::milliseconds::max(), std::chrono::milliseconds(9223372036854) };
	const auto period = periods[r.below(std::size(periods))];
	if (r.chance(1, 2)) e.setEventLoopSleepDuration(period);
	const int producers = (int)r.range(1, 4);
	const int inputs = (int)r.range(1, 3);
	const int w = r.chance(1, 4) ? 2 : 1;
	const bool enterAction = r.chance(1, 3);
	const int guardUs = r.chance(1, 2) ? (int)r.below(300) : 0;
	const bool bystanders = r.chance(1, 2);
	const int restarts = (int)r.below(4);
	const int perRound = (int)r.range(3, mode == Mode::DETACHED ? 15 : 40);
	std::ostringstream d;
	d << modeName(mode) << " producers=" << producers << " inputs=" << inputs << " weight=" << w << " enter=" << enterAction << " guardUs="
	  << guardUs << " bystanders=" << bystanders << " restarts=" << restarts << " perRound=" << perRound;
	vh::describe(d.str());

	std::vector<std::unique_ptr<vh::Gate>> done;
	for (int p = 0; p < producers; ++p)
	{
		done.push_back(std::make_unique<vh::Gate>());
		for (int i = 0; i < inputs; ++i)
		{
			const std::string n = "in" + std::to_string(p) + "_" + std::to_string(i);
			ptne::PlaceProperties pp;
			pp.name = n;
			pp.input = true;
			if (enterAction) pp.onEnterAction = [] {};
			e.createPlace(pp);
			e.createPlace({ .name = "out" + n, .onEnterAction = [g = done[p].get()] { g->add(); } });
			ptne::TransitionProperties tp;
			tp.name = "T" + n;
			tp.activationArcs = { { .weight = (size_t)w, .placeName = n } };
			tp.destinationArcs = { { .placeName = "out" + n } };
			if (guardUs)
				tp.additionalConditions = { [guardUs]
											{
												spinNs(guardUs * 1000);
												return true;
											} };
			e.createTransition(tp);
		}
	}
	if (bystanders)
	{
		// always enabled, never allowed: makes each evaluation longer
		e.createPlace({ .name = "by", .initialNumberOfTokens = 1 });
		for (int i = 0; i < 3; ++i)
			e.createTransition({ .name = "by" + std::to_string(i),
								 .activationArcs = { { .placeName = "by" } },
								 .additionalConditions = { [guardUs]
														   {
															   spinNs(guardUs * 500);
															   return false;
														   } } });
		e.createPlace({ .name = "noise", .input = true });
	}
	e.setEventLoopSleepDuration(period);
	// places that feed no transition at first
	vh::Gate newDone;
	long newWant = 0;
	const bool newcomers = r.chance(1, 2);
	std::vector<std::string> spare;
	if (newcomers)
		for (int i = 0; i <= restarts; ++i)
		{
			spare.push_back("spare" + std::to_string(i));
			e.createPlace({ .name = spare.back(), .onEnterAction = enterAction ? [] {} : ptne::ActionFunction(), .input = true });
		}
	uint64_t h = vh::hcomb(r.next(), (uint64_t)mode);
	for (int round = 0; round <= restarts; ++round)
	{
		const int nm = (int)r.below(5);
		noise::configure(r.next(), nm, 60000);
		// the first inputs may arrive before, while or after the loop starts
		const bool early = r.chance(1, 3);
		std::vector<std::thread> ts;
		std::atomic<bool> stopNoise{ false };
		if (!early) e.execute();
		const int style = (int)r.below(3);
		for (int p = 0; p < producers; ++p)
			ts.emplace_back(
			[&, p, rng = vh::Rng(r.next())]() mutable
			{
				long want = done[p]->value();
				for (int k = 0; k < perRound; ++k)
				{
					const int burst = style == 2 ? (int)rng.range(1, 4) : 1;
					for (int b = 0; b < burst; ++b)
					{
						const std::string n = "in" + std::to_string(p) + "_" + std::to_string(rng.below(inputs));
						for (int i = 0; i < w; ++i) e.incrementInputPlace(n);
						++want;
					}
					done[p]->waitFor(want);
					vh::tick();
					if (style != 0)
						spinNs((int64_t)rng.below(style == 1 ? 20000 : 400000));
				}
			});
		std::thread noisy;
		if (bystanders && r.chance(1, 2))
			noisy = std::thread(
			[&, rng = vh::Rng(r.next())]() mutable
			{
				while (!stopNoise)
				{
					e.incrementInputPlace("noise");
					std::this_thread::sleep_for(std::chrono::microseconds(50 + rng.below(500)));
				}
			});
		if (early)
		{
			if (r.chance(1, 2)) spinNs((int64_t)r.below(300000));
			e.execute();
		}
		if (newcomers)
		{
			// transitions created while the loop runs, fed by places old and new
			for (int k = (int)r.range(1, 3); k > 0; --k)
			{
				const std::string id = std::to_string(round) + "_" + std::to_string(k);
				std::string n = "new" + id;
				if (k == 1)
					n = spare[round];
				else
					e.createPlace({ .name = n, .input = true });
				const size_t weight = r.range(1, 2);
				e.createPlace({ .name = "outnew" + id, .onEnterAction = [&newDone] { newDone.add(); } });
				e.createTransition({ .name = "Tnew" + id, .activationArcs = { { .weight = weight, .placeName = n } }, .destinationArcs = { { .placeName = "outnew" + id } } });
				spinNs((int64_t)r.below(300000));
				for (int x = (int)r.range(1, 3); x > 0; --x)
				{
					for (size_t i = 0; i < weight; ++i) e.incrementInputPlace(n);
					newDone.waitFor(++newWant);
					vh::tick();
					vh::count("wakeups_by_newcomers");
				}
			}
		}
		for (auto &t : ts) t.join();
		stopNoise = true;
		if (noisy.joinable()) noisy.join();
		noise::off();
		e.stop();
		vh::count("wakeups_awaited", (uint64_t)(producers * perRound));
		vh::count("engine_runs");
		h = vh::hcomb(h, nm * 100 + style * 10 + early);
	}
	vh::count(std::string("cases_") + modeName(mode));
	vh::distinct(h);
	if (restarts > 1) vh::sample(d.str());
}
