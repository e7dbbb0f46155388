// C02 - token conservation under concurrent input: state equation over producers, actions that add
// tokens, stop/execute cycles and mode switches.
#include "concrun.h"
using namespace game;
const char *vh_property = "C02";

static const Mode kModes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

void vh_case(vh::Case &c, vh::Rng &r)
{
	ConcRun::Options o;
	o.gen = ConcRun::defaults();
	o.gen.nameStyle = 0;
	const int phases = r.chance(2, 3) ? 1 : (int)r.range(2, 3);
	o.modes.clear();
	for (int i = 0; i < phases; ++i) o.modes.push_back(kModes[r.below(4)]);
	o.producers = (int)r.range(1, 6);
	o.incs = (int)r.range(5, c.thorough ? 400 : 100);
	o.toggles = r.chance(1, 2) ? (int)r.range(1, 6) : 0;
	o.fuel = r.chance(1, 4) ? 2000 : r.below(400);
	o.spreadUs = r.chance(1, 2) ? 0 : (int)r.below(80);
	o.slowActionsUs = r.chance(1, 3) ? 200 : 0;
	o.actionIncs = r.chance(1, 3) ? (int)r.below(30) : 0;
	o.readers = r.chance(1, 4) ? 1 : 0;
	for (auto m : o.modes)
		if (m == Mode::DETACHED) o.fuel = std::min<size_t>(o.fuel, 150);
	vh::describe("building");
	ConcRun g(vh::Rng(r.next()), o);
	noise::configure(r.next(), (int)r.below(5), 60000);
	uint64_t h = hashNet(g.net);
	for (int i = 0; i < phases; ++i)
	{
		const bool drain = i + 1 == phases || r.chance(1, 2);
		g.runPhase(i, drain);
		if (!drain && o.actionIncs) continue; // actions may be adding tokens right now
		const std::string bad = g.stateEquation();
		// without a rest, firings cannot be in progress either: the engine is stopped
		VH_CHECK(bad.empty(), "tokens", bad << " in " << g.describe());
		for (size_t v : g.marking) h = vh::hcomb(h, v);
	}
	noise::off();
	vh::count("accepted_increments", (uint64_t)g.acceptedTotal());
	vh::count("rejected_increments", (uint64_t)g.rejected.load());
	vh::count("firings", g.firings());
	vh::count("actions", (uint64_t)g.actionsRun.load());
	for (auto m : o.modes) vh::count(std::string("phases_") + modeName(m));
	if (g.firings() > 0 && g.acceptedTotal() > 0) vh::distinct(h);
	if (g.firings() > 10) vh::sample(g.describe() + " end " + show(g.marking));
}
