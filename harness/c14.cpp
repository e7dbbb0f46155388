// C14: introspection reflects exactly the accepted edits; a rebuilt net is equivalent.
#include "apimodel.h"

const char *vh_property = "C14";
using namespace api;

namespace
{
//! A net in another engine from the properties of the first.
void rebuild(Api &a, Rng &r)
{
	Api b((Mode)r.below(4), a.fn);
	b.nextId = a.nextId;
	b.trail = "rebuilt from: " + a.trail;
	auto places = a.e->getPlacesProperties();
	auto trans = a.e->getTransitionsProperties();
	r.shuffle(places);
	r.shuffle(trans);
	const bool named = r.chance(1, 2);
	b.m.places = a.m.places;
	b.m.trans = a.m.trans;
	for (auto &p : places)
	{
		auto &q = b.m.places[p.name];
		auto reg = [&](std::string &n, std::string &mn, const ptne::ActionFunction &f)
		{
			if (n.empty()) return;
			if (!named)
			{
				n = mn = "";
				return;
			}
			if (!b.m.actions.contains(n))
			{
				b.e->registerAction(n, f);
				b.m.actions[n] = Funcs::who(f);
			}
		};
		reg(p.onEnterActionFunctionName, q.enterName, p.onEnterAction);
		reg(p.onExitActionFunctionName, q.exitName, p.onExitAction);
		b.e->createPlace(p);
	}
	for (auto &t : trans)
	{
		auto &q = b.m.trans[t.name];
		const bool all = !t.additionalConditionsNames.empty() && std::ranges::none_of(t.additionalConditionsNames, [](auto &n) { return n.empty(); });
		if (!named || !all)
		{
			t.additionalConditionsNames.clear();
			q.condNames.assign(q.conds.size(), "");
		}
		else
			for (size_t i = 0; i < t.additionalConditionsNames.size(); ++i)
				if (!b.m.conditions.contains(t.additionalConditionsNames[i]))
				{
					b.e->registerCondition(t.additionalConditionsNames[i], t.additionalConditions[i]);
					b.m.conditions[t.additionalConditionsNames[i]] = Funcs::who(t.additionalConditions[i]);
				}
		std::vector<ArcProperties> resets;
		std::erase_if(t.activationArcs,
		              [&](auto &x)
		              {
			              if (x.weight == 0) resets.push_back(x);
			              return x.weight == 0;
		              });
		b.e->createTransition(t);
		for (auto &x : resets) b.e->addArc(x);
	}
	b.compare("rebuilt");
	// and it behaves the same
	for (auto &[id, n] : a.m.calls) b.m.calls[id] = a.fn->calls[id].load();
	const long firings = b.firings;
	for (auto &[n, id] : a.m.conditions) a.fn->value[id] = r.chance(1, 2);
	if (b.execute())
	{
		for (auto &[n, p] : a.m.places)
			if (p.input && p.tokens < 5 && r.chance(1, 2)) b.increment(n);
		b.compare("rebuilt and run");
		if (b.m.running) b.stop();
		b.settle();
		vh::count("rebuilt_nets_run");
		vh::count("firings_of_rebuilt_nets", (uint64_t)(b.firings - firings));
		for (auto &[id, n] : b.m.calls) a.m.calls[id] = n;
	}
	else
		b.settle();
	vh::count("rebuilt_nets");
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	Api a((Mode)r.below(4));
	const bool large = r.chance(1, 20);
	Fuzzer f(a, r, large ? 40 + (int)r.below(80) : 1 + (int)r.below(8));
	f.invalidBias = (int)r.below(3) * 5;
	const int n = large ? 1000 : 10 + (int)r.below(c.thorough ? 250 : 90);
	for (int i = 0; i < n; ++i)
	{
		f.step();
		if (!large || i % 50 == 0) a.compare();
	}
	a.compare("at the end");
	vh::count("histories");
	if (a.m.running) a.stop();
	a.settle();
	vh::count("accepted", (uint64_t)a.accepted);
	vh::count("firings", (uint64_t)a.firings);
	vh::count("runs", (uint64_t)a.runs);
	if (!a.m.places.empty())
	{
		rebuild(a, r);
		// the introspected engine has not changed
		a.compare("after its net was rebuilt elsewhere");
	}
	if (a.m.places.size() > 60) vh::count("large_nets");
	vh::distinct(a.hash);
	if (c.index < 2) vh::sample(a.trail);
}
