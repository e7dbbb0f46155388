// C13: rejected calls throw a PTN_Exception and change nothing.
#include "apimodel.h"

const char *vh_property = "C13";
using namespace api;

namespace
{
void fuzz(vh::Case &c, Rng &r)
{
	const Mode mode = (Mode)r.below(4);
	Api a(mode);
	Fuzzer f(a, r, 1 + (int)r.below(4));
	f.invalidBias = 20 + (int)r.below(60);
	// a small net to start from
	const int warm = (int)r.below(25);
	const int bias = f.invalidBias;
	f.invalidBias = 5;
	for (int i = 0; i < warm; ++i) f.step();
	f.invalidBias = bias;
	const int n = 10 + (int)r.below(c.thorough ? 150 : 60);
	long runningRejects = 0;
	for (int i = 0; i < n; ++i)
	{
		const long before = a.rejected;
		const bool running = a.m.running;
		f.step();
		if (a.rejected != before)
		{
			a.compare("after the rejected call");
			vh::count("rejected_" + std::string(running ? "running" : "stopped"));
			if (running) ++runningRejects;
		}
		else if (r.chance(1, 4))
			a.compare();
	}
	a.compare();
	// fully usable: a fresh, known part of the net works
	if (a.m.running) a.stop();
	a.settle();
	for (auto &[name, id] : a.m.conditions) a.fn->value[id] = false;
	std::string u = "usable";
	while (a.m.places.contains(u) || a.m.places.contains(u + "2") || a.m.trans.contains(u)) u += "_";
	a.createPlace(u, 0, true, "", "", true, true);
	a.createPlace(u + "2", 0, false, "", "", true, true);
	a.createTransition(u, { { u, 2 } }, { { u + "2", 3 } }, {}, {}, 0, false);
	Model s = a.m;
	long f0 = 0;
	if (a.simulate(s, f0))
	{
		a.increment(u);
		a.increment(u);
		const bool ran = a.execute();
		a.compare("at the end");
		if (ran) vh::count("usable_afterwards");
		if (a.m.running) a.stop();
		a.settle();
	}
	vh::count("rejected", (uint64_t)a.rejected);
	vh::count("accepted", (uint64_t)a.accepted);
	vh::count("rejected_while_running", (uint64_t)runningRejects);
	vh::count("firings", (uint64_t)a.firings);
	if (a.rejected) vh::distinct(a.hash);
	if (c.index < 2) vh::sample(a.trail);
}

// Many threads make invalid calls on a running engine that is kept busy by valid input.
void storm(vh::Case &, Rng &r)
{
	const Mode mode = std::array{ Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED }[r.below(3)];
	auto fn = std::make_shared<Funcs>();
	Api a(mode, fn);
	a.registerAction("A");
	a.registerCondition("C", true);
	const int k = 1 + (int)r.below(4);
	for (int i = 0; i < k; ++i)
	{
		const auto s = std::to_string(i);
		a.createPlace("I" + s, 0, true, "A", "", false, false);
		a.createPlace("O" + s, 0, false, "", "A", false, false);
		a.createTransition("T" + s, { { "I" + s, 1 + r.below(2) } }, { { "O" + s, 1 + r.below(3) } }, {}, { "C" }, 0, false);
	}
	a.createPlace("full", SIZE_MAX, true, "A", "", false, false);
	a.setSleep(1 + (long)r.below(20));
	Model m0 = a.m;
	noise::configure(r.next(), (int)r.below(5), 2000000);
	a.e->execute();
	const int nThreads = 2 + (int)r.below(4);
	std::atomic<bool> stop{ false };
	std::atomic<long> refused{ 0 };
	std::vector<std::thread> th;
	auto &e = *a.e;
	for (int t = 0; t < nThreads; ++t)
		th.emplace_back(
		[&, seed = r.next()]
		{
			Rng q(seed);
			while (!stop)
			{
				const int op = (int)q.below(13);
				try
				{
					switch (op)
					{
					case 0: e.createPlace({ .name = "I0" }); break;
					case 1: e.createPlace({ .name = "" }); break;
					case 2: e.createPlace({ .name = "new", .onEnterActionFunctionName = "nope" }); break;
					case 3: e.createTransition({ .name = "T0", .activationArcs = { { .placeName = "O0" } } }); break;
					case 4: e.createTransition({ .name = "T new", .activationArcs = { { .placeName = "I0" }, { .placeName = "I0" } } }); break;
					case 5: e.createTransition({ .name = "T new", .activationArcs = { { .weight = 0, .placeName = "I0" } } }); break;
					case 6: e.addArc({ .placeName = "O0", .transitionName = "T0" }); break;
					case 7: e.removeArc({ .placeName = "I0", .transitionName = "T0" }); break;
					case 8: e.clearNet(); break;
					case 9: e.setActionsThreadOption((Mode)q.below(4)); break;
					case 10: e.incrementInputPlace(q.chance(1, 3) ? "full" : q.chance(1, 2) ? "O0" : "unknown"); break;
					case 11: e.registerAction("A", fn->action(999)); break;
					case 12: e.execute(); break;
					}
				}
				catch (const ptne::PTN_Exception &)
				{
					++refused;
					continue;
				}
				catch (const std::exception &x)
				{
					vh::fail("wrong-exception", "call " + std::to_string(op) + ": " + x.what());
				}
				vh::fail("invalid-call-accepted", "call " + std::to_string(op) + " on a running engine did not throw");
			}
		});
	// valid input from this thread; the model follows
	const int n = 20 + (int)r.below(60);
	std::vector<size_t> in(k, 0);
	for (int i = 0; i < n; ++i)
	{
		const int p = (int)r.below(k);
		e.incrementInputPlace("I" + std::to_string(p));
		++in[p];
		if (r.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
		vh::tick();
	}
	Model s = m0;
	for (int p = 0; p < k; ++p)
	{
		const auto q = std::to_string(p);
		auto &t = s.trans["T" + q];
		const size_t w = t.act["I" + q], d = t.dest["O" + q];
		s.places["I" + q].tokens = in[p] % w;
		s.places["O" + q].tokens = in[p] / w * d;
		s.calls[a.m.actions["A"]] += (long)in[p];
	}
	s.running = true;
	auto same = [&]
	{
		for (auto &[nm, p] : s.places)
			if (e.getNumberOfTokens(nm) != p.tokens) return false;
		return true;
	};
	const bool ok = vh::await(same, 30);
	stop = true;
	for (auto &t : th) t.join();
	noise::off();
	if (!ok) a.trail += "(marking not reached)";
	a.m = s;
	a.trail += "storm of invalid calls;";
	a.compare("after the storm");
	a.stop();
	a.settle();
	a.compare("at rest");
	vh::count("storm_refusals", (uint64_t)refused.load());
	vh::count("storms");
	vh::distinct(vh::hcomb(vh::hcomb(n, refused.load()), (uint64_t)k));
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	if (c.index % 12 == 11)
		storm(c, r);
	else
		fuzz(c, r);
}
