// C24: engine instances are independent.
#include "apimodel.h"
#include "concrun.h"
#include "gamerun.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <deque>

const char *vh_property = "C24";
using vh::Rng;
using game::Mode;
using game::modeName;

namespace
{
const Mode kModes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
const Mode kThreaded[] = { Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

// ---------------------------------------------------------------------------------
// Units: one engine each, used and checked as if it were alone in the process.

uint64_t unitGame(Rng r, bool)
{
	game::GameRun::Options o;
	o.mode = kModes[r.below(4)];
	o.fuel = 5 + r.below(40);
	o.fuelPlace = r.chance(1, 2);
	o.sleepMs = 1 + (long)r.below(3);
	o.gen.nameStyle = 0;
	o.gen.markers = true;
	game::GameRun g(Rng(r.next()), o, "(one of several) ");
	const int runs = 1 + (int)r.below(3);
	for (int i = 0; i < runs; ++i)
	{
		if (i) g.increments((int)r.below(5));
		std::ostringstream os;
		const bool log = r.chance(1, 3);
		g.runAndCheck(log, &os);
		if (log)
		{
			// only places of this net are in this log
			std::istringstream in(os.str());
			std::string l;
			std::set<std::string> names{ "Place; Tokens", "", "sentinel place: 1" };
			while (std::getline(in, l))
			{
				if (names.contains(l)) continue;
				const auto k = l.rfind(": ");
				VH_CHECK(k != std::string::npos && std::ranges::any_of(g.net.P, [&](auto &p) { return p.name == l.substr(0, k); }), "foreign-log", "line '" << l << "' in the log of " << g.describe());
			}
			vh::count("separate_logs");
		}
		else
			VH_CHECK(os.str().empty(), "foreign-log", "an engine run without log has written '" << os.str().substr(0, 200) << "' " << g.describe());
		VH_CHECK(g.engine->getActionsThreadOption() == o.mode, "thread-option", "changed by itself: " << g.describe());
		if (o.mode != Mode::SINGLE_THREAD)
			VH_CHECK(g.engine->getEventLoopSleepDuration().count() == o.sleepMs, "sleep", "changed by itself: " << g.describe());
	}
	vh::count("units_token_game");
	vh::count("firings", g.firings);
	uint64_t h = hashNet(g.net);
	for (auto v : g.marking) h = vh::hcomb(h, v);
	return h;
}

uint64_t unitConcurrent(Rng r, bool)
{
	game::ConcRun::Options o;
	o.gen = game::ConcRun::defaults();
	o.gen.nameStyle = 0;
	o.modes.clear();
	for (int k = 1 + (int)r.below(2); k > 0; --k) o.modes.push_back(kModes[r.below(4)]);
	o.producers = (int)r.range(1, 3);
	o.incs = (int)r.range(5, 40);
	o.toggles = r.chance(1, 2) ? (int)r.range(1, 4) : 0;
	o.fuel = r.below(100);
	o.spreadUs = (int)r.below(40);
	o.readers = r.chance(1, 4) ? 1 : 0;
	o.actionIncs = r.chance(1, 3) ? (int)r.below(10) : 0;
	game::ConcRun g(Rng(r.next()), o);
	for (int i = 0; i < (int)o.modes.size(); ++i) g.runPhase(i, true);
	std::string bad = g.stateEquation();
	VH_CHECK(bad.empty(), "tokens", bad << " in " << g.describe());
	bad = g.actionCounts();
	VH_CHECK(bad.empty(), "actions", bad << " in " << g.describe());
	bad = g.quiescent();
	VH_CHECK(bad.empty(), "not-quiescent", bad << " in " << g.describe());
	vh::count("units_concurrent");
	vh::count("firings", g.firings());
	uint64_t h = hashNet(g.net);
	for (auto v : g.marking) h = vh::hcomb(h, v);
	return h;
}

uint64_t unitApi(Rng r, bool thorough)
{
	api::Api a(kModes[r.below(4)]);
	api::Fuzzer f(a, r, 1 + (int)r.below(4));
	f.invalidBias = (int)r.below(30);
	const int n = 20 + (int)r.below(thorough ? 120 : 60);
	for (int i = 0; i < n; ++i)
	{
		f.step();
		if (r.chance(1, 3)) a.compare();
	}
	a.compare();
	if (a.m.running) a.stop();
	a.settle();
	vh::count("units_api");
	vh::count("firings", (uint64_t)a.firings);
	return a.hash;
}

//! export and import, of engines of their own
uint64_t unitFiles(Rng r, const std::string &tmp, int no)
{
	api::Api a(kModes[r.below(4)]);
	a.nextId = 3 * no; // equal names, different functions
	a.registerAction("A");
	a.registerAction("B");
	a.registerCondition("C", true);
	const int n = 1 + (int)r.below(6);
	for (int i = 0; i < n; ++i) a.createPlace("P" + std::to_string(i), r.below(9), r.chance(1, 2), r.chance(1, 2) ? "A" : "", r.chance(1, 2) ? "B" : "", false, false);
	for (int i = 0; i < n; ++i)
		a.createTransition("T" + std::to_string(i), { { "P" + std::to_string(r.below(n)), 1 + r.below(9) } }, { { "P" + std::to_string(r.below(n)), 1 + r.below(9) } }, {},
		                   r.chance(1, 2) ? std::vector<std::string>{ "C" } : std::vector<std::string>{}, 0, r.chance(1, 2));
	api::Api b(kModes[r.below(4)], a.fn);
	b.nextId = 3 * no; // the same functions
	b.registerAction("A");
	b.registerAction("B");
	b.registerCondition("C", true);
	for (int k = 0; k < 3; ++k)
	{
		const std::string file = tmp + "/n" + std::to_string(no) + ".xml";
		ptne::FileExporterFactory::createXMLFileExporter()->_export(*a.e, file);
		ptne::FileImporterFactory::createXMLFileImporter()->_import(file, *b.e);
		const long sleep = b.m.sleep;
		b.m = a.m;
		b.m.sleep = sleep;
		b.trail += "import; ";
		b.compare("after the import");
		b.clearNet();
	}
	vh::count("units_files");
	return a.hash;
}

void parallel(vh::Case &c, Rng &r)
{
	const int k = 2 + (int)r.below(4);
	std::ostringstream d;
	d << "parallel units:";
	std::vector<std::function<uint64_t()>> units;
	for (int i = 0; i < k; ++i)
	{
		const uint64_t s = r.next();
		const int kind = (int)r.below(8);
		d << " " << kind << "/" << s;
		const bool th = c.thorough;
		if (kind < 3) units.push_back([=] { return unitGame(Rng(s), th); });
		else if (kind < 5) units.push_back([=] { return unitConcurrent(Rng(s), th); });
		else if (kind < 7) units.push_back([=] { return unitApi(Rng(s), th); });
		else units.push_back([=, tmp = c.tmp] { return unitFiles(Rng(s), tmp, i); });
	}
	vh::describe(d.str());
	noise::configure(r.next(), (int)r.below(5), 60000);
	std::vector<uint64_t> h(k);
	std::vector<std::thread> th;
	for (int i = 0; i < k; ++i)
		th.emplace_back(
		[&, i]
		{
			vh::muteDescribe(true);
			h[i] = units[i]();
		});
	for (auto &t : th) t.join();
	noise::off();
	vh::count("parallel_sets");
	uint64_t x = 0;
	for (auto v : h) x = vh::hcomb(x, v);
	vh::distinct(x);
	if (c.index < 16) vh::sample(d.str());
}

// ---------------------------------------------------------------------------------
// Several engines under one history: after each call on one of them, the others are compared with their models.

void interleaved(vh::Case &c, Rng &r)
{
	const int k = 2 + (int)r.below(4);
	struct U
	{
		std::unique_ptr<api::Api> a;
		std::unique_ptr<api::Fuzzer> f;
	};
	std::vector<U> us(k);
	std::vector<std::unique_ptr<Rng>> rs;
	const uint64_t pools = r.next();
	auto renew = [&](int i)
	{
		us[i].f.reset();
		if (us[i].a && r.chance(1, 2))
		{
			us[i].a->settle();
			if (us[i].a->m.running) vh::count("destroyed_running");
			us[i].a->e.reset();
		}
		us[i].a.reset();
		us[i].a = std::make_unique<api::Api>(kModes[r.below(4)]);
		us[i].a->nextId = i * 3;
		*rs[i] = Rng(pools); // the same pools of names for all of them
		us[i].f = std::make_unique<api::Fuzzer>(*us[i].a, *rs[i], 3);
		*rs[i] = Rng(r.next());
		us[i].f->invalidBias = (int)r.below(25);
	};
	for (int i = 0; i < k; ++i)
	{
		rs.push_back(std::make_unique<Rng>(1));
		renew(i);
	}
	const int n = 60 + (int)r.below(c.thorough ? 300 : 120);
	uint64_t h = 0;
	long bystanders = 0, whileRunning = 0, firings = 0;
	for (int s = 0; s < n; ++s)
	{
		const int i = (int)r.below(k);
		if (r.chance(1, 40))
		{
			h = vh::hcomb(h, us[i].a->hash);
			firings += us[i].a->firings;
			renew(i);
			vh::count("engines_replaced");
		}
		else
			us[i].f->step();
		for (int j = 0; j < k; ++j)
			if (j != i && r.chance(1, 3))
			{
				us[j].a->compare((" (after a call on another engine: " + us[i].a->trail.substr(us[i].a->trail.size() > 150 ? us[i].a->trail.size() - 150 : 0) + ")").c_str());
				++bystanders;
				whileRunning += us[j].a->m.running;
			}
	}
	for (auto &u : us)
	{
		u.a->compare("at the end");
		if (u.a->m.running) u.a->stop();
		u.a->settle();
		h = vh::hcomb(h, u.a->hash);
		firings += u.a->firings;
	}
	vh::count("interleaved_histories");
	vh::count("bystanders_compared", bystanders);
	vh::count("bystanders_compared_running", whileRunning);
	vh::count("firings", firings);
	vh::distinct(h);
}

// ---------------------------------------------------------------------------------
// One engine is held inside user code; others must live as if alone.

const char *holdNames[] = { "action", "condition", "input action" };

void held(vh::Case &, Rng &r)
{
	const Mode mode = kModes[r.below(4)];
	const int hold = (int)r.below(3);
	vh::Gate reached, release;
	std::atomic<long> aActions{ 0 }, left{ 0 };
	auto wait = [&]
	{
		reached.add();
		release.waitFor(1);
		++left;
	};
	std::thread t;
	{
		ptne::PTN_Engine a(mode);
		vh::describe(std::string("held in ") + holdNames[hold] + " " + modeName(mode));
		a.createPlace({ .name = "P0", .initialNumberOfTokens = 1 });
		a.createPlace({ .name = "P1", .onEnterAction = [&] { if (hold == 0) { ++aActions; wait(); } else ++aActions; } });
		a.createPlace({ .name = "I", .onEnterAction = [&] { if (hold == 2) wait(); }, .input = true });
		ptne::TransitionProperties tp;
		tp.name = "T0";
		tp.activationArcs = { { .placeName = "P0" } };
		tp.destinationArcs = { { .placeName = "P1" } };
		tp.requireNoActionsInExecution = r.chance(1, 2);
		if (hold == 1)
			tp.additionalConditions = { [&]
										{
											if (release.value() == 0) wait();
											return true;
										} };
		a.createTransition(tp);
		t = std::thread(
		[&]
		{
			if (hold == 2) a.incrementInputPlace("I");
			else a.execute();
		});
		reached.waitFor(1);
		// meanwhile
		const int n = 1 + (int)r.below(3);
		std::vector<uint64_t> seeds;
		for (int i = 0; i < n; ++i) seeds.push_back(r.next());
		std::vector<std::thread> th;
		noise::configure(r.next(), (int)r.below(5), 30000);
		for (int i = 0; i < n; ++i)
			th.emplace_back(
			[&, i]
			{
				vh::muteDescribe(true);
				Rng q(seeds[i]);
				switch (q.below(3))
				{
				case 0: unitGame(q, false); break;
				case 1: unitConcurrent(q, false); break;
				case 2: unitApi(q, false); break;
				}
			});
		for (auto &x : th) x.join();
		noise::off();
		VH_CHECK(aActions == (hold == 0), "moved", "the held engine has run " << aActions << " actions (" << holdNames[hold] << " " << modeName(mode) << ")");
		release.add();
		t.join();
		if (mode != Mode::SINGLE_THREAD && hold != 2)
		{
			VH_CHECK(vh::await([&] { return aActions == 1 && a.getNumberOfTokens("P1") == 1; }, 30), "continues", "the released engine did not go on");
			a.stop();
		}
		VH_CHECK(vh::await([&] { return left == 1; }, 30), "continues", "the released function did not go on");
	}
	vh::count(std::string("held_in_") + holdNames[hold]);
	vh::count(std::string("held_") + modeName(mode));
	vh::distinct(vh::hcomb(r.next(), hold * 4 + (int)mode));
}

// ---------------------------------------------------------------------------------
// Engines that feed each other through their actions.

void ring(vh::Case &c, Rng &r)
{
	const int k = 2 + (int)r.below(5);
	// actions of EVENT_LOOP engines run under the lock of their engine, those of SINGLE_THREAD too: in a ring of
	// only such engines each action could wait for the next engine, so at least two run theirs elsewhere
	// (a ring through locks is broken by an engine whose input does not wait for its actions)
	std::vector<Mode> modes(k);
	for (auto &m : modes) m = r.chance(1, 2) ? Mode::JOB_QUEUE : Mode::DETACHED;
	const bool chain = r.chance(1, 2);
	if (chain)
		for (int i = 0; i < k; ++i)
			if (r.chance(1, 2)) modes[i] = Mode::EVENT_LOOP;
	const int tokens = 1 + (int)r.below(5);
	const int laps = chain ? 1 : 2 + (int)r.below(c.thorough ? 60 : 20);
	struct E
	{
		std::atomic<long> sent{ 0 }, in{ 0 }, evaluated{ 0 };
	};
	std::deque<E> st(k);
	std::vector<ptne::PTN_Engine *> raw(k, nullptr);
	vh::Gate done;
	std::atomic<long> busy{ 0 };
	std::deque<ptne::PTN_Engine> es;
	std::ostringstream d;
	d << (chain ? "chain" : "ring") << " tokens=" << tokens << " laps=" << laps;
	for (int i = 0; i < k; ++i) d << " " << modeName(modes[i]);
	vh::describe(d.str());
	const long total = (long)tokens * laps; // tokens passing each engine
	std::vector<int> w(k);
	for (int i = 0; i < k; ++i)
	{
		es.emplace_back(modes[i]);
		raw[i] = &es.back();
		auto &e = es.back();
		e.createPlace({ .name = "in", .onEnterAction = [&, i] { ++st[i].in; }, .input = true });
		ptne::PlaceProperties out;
		out.name = "out";
		out.onEnterAction = [&, i]
		{
			++busy;
			const long n = ++st[i].sent;
			vh::tick();
			const bool last = i + 1 == k;
			if (!last)
				raw[i + 1]->incrementInputPlace("in");
			else if (chain)
				;
			else if (n <= total - tokens)
				raw[0]->incrementInputPlace("in");
			--busy;
			if (last) done.add();
		};
		e.createPlace(out);
		ptne::TransitionProperties tp;
		tp.name = "pass";
		tp.activationArcs = { { .placeName = "in" } };
		tp.destinationArcs = { { .placeName = "out" } };
		tp.additionalConditions = { [&, i] { ++st[i].evaluated; return true; } };
		e.createTransition(tp);
		// a lost input would be noticed by the next evaluation only after an hour
		e.setEventLoopSleepDuration(std::chrono::hours(1 + i));
	}
	noise::configure(r.next(), (int)r.below(5), 40000);
	std::vector<int> order(k);
	for (int i = 0; i < k; ++i) order[i] = i;
	r.shuffle(order);
	for (int i : order) es[i].execute();
	std::vector<std::thread> th;
	for (int i = 0; i < tokens; ++i)
		th.emplace_back([&] { es[0].incrementInputPlace("in"); });
	for (auto &t : th) t.join();
	done.waitFor(total);
	vh::await([&] { return busy == 0; }, 30);
	noise::off();
	for (int i = 0; i < k; ++i)
	{
		// the last pass may be returning
		auto right = [&] { return es[i].getNumberOfTokens("in") == 0 && (long)es[i].getNumberOfTokens("out") == total && st[i].sent == total && st[i].in == total; };
		VH_CHECK(vh::await(right, 20), "tokens-passed", "engine " << i << " has " << es[i].getNumberOfTokens("in") << " and " << es[i].getNumberOfTokens("out") << " tokens, and has run " << st[i].in << " and " << st[i].sent << " actions, expected 0 and " << total << ", and " << total << " each; " << d.str());
		VH_CHECK(es[i].getEventLoopSleepDuration() == std::chrono::hours(1 + i), "sleep", "of engine " << i << " " << d.str());
		VH_CHECK(es[i].getActionsThreadOption() == modes[i], "thread-option", "of engine " << i << " " << d.str());
	}
	// stopping one after the other stops just that one
	r.shuffle(order);
	std::vector<bool> stopped(k);
	for (int i : order)
	{
		es[i].stop();
		stopped[i] = true;
		for (int j = 0; j < k; ++j) VH_CHECK(es[j].isEventLoopRunning() == !stopped[j], "running", "engine " << j << (stopped[j] ? " runs" : " does not run") << " after engine " << i << " was stopped; " << d.str());
	}
	VH_CHECK(done.value() == total, "extra", "more passed than sent: " << done.value() << " of " << total << "; " << d.str());
	vh::count("tokens_passed_between_engines", (uint64_t)(total * k));
	vh::count(chain ? "chains" : "rings");
	for (auto m : modes) vh::count(std::string("passing_") + modeName(m));
	vh::distinct(vh::hcomb(vh::hcomb(total, k), r.next()));
}

// ---------------------------------------------------------------------------------
// Idle engines: what others do causes no evaluation of theirs; periods are each engine's own.

void idle(vh::Case &, Rng &r)
{
	const int k = 2 + (int)r.below(3);
	struct I
	{
		std::atomic<long> passes{ 0 };
		std::atomic<bool> open{ false };
	};
	std::deque<I> st(k);
	std::deque<ptne::PTN_Engine> es;
	auto make = [&](std::atomic<long> &n, Mode m, std::chrono::milliseconds period)
	{
		auto &e = es.emplace_back(m);
		e.createPlace({ .name = "P", .initialNumberOfTokens = 1, .input = true });
		ptne::TransitionProperties tp;
		tp.name = "T";
		tp.activationArcs = { { .placeName = "P" } };
		tp.additionalConditions = { [&n] { ++n; return false; } };
		e.createTransition(tp);
		e.setEventLoopSleepDuration(period);
	};
	std::atomic<long> fast{ 0 };
	std::ostringstream d;
	d << "idle:";
	for (int i = 0; i < k; ++i)
	{
		const Mode m = kThreaded[r.below(3)];
		make(st[i].passes, m, std::chrono::hours(1 + r.below(20)));
		d << " " << modeName(m);
	}
	const Mode busy = kThreaded[r.below(3)];
	make(fast, busy, std::chrono::milliseconds(1));
	d << " beside " << modeName(busy);
	vh::describe(d.str());
	auto &b = es.back();
	noise::configure(r.next(), (int)r.below(5), 20000);
	for (auto &e : es) e.execute();
	// idle: each has evaluated its net, and now sleeps
	std::vector<long> n(k);
	for (int i = 0; i < k; ++i) VH_CHECK(vh::await([&] { return st[i].passes > 0; }, 30), "first-evaluation", d.str());
	const int rounds = 2 + (int)r.below(3);
	for (int round = 0; round < rounds; ++round)
	{
		for (int i = 0; i < k; ++i)
		{
			auto settled = [&]
			{
				const long x = st[i].passes;
				std::this_thread::sleep_for(std::chrono::milliseconds(10));
				return st[i].passes == x;
			};
			VH_CHECK(vh::await(settled, 30), "busy", "engine " << i << " of a period of hours keeps evaluating; " << d.str());
			n[i] = st[i].passes;
		}
		// (an evaluation due to the engine's own input may still be to come, and one follow it, hence not exactly none)
		// the other one: runs, is given input, stopped and restarted, created and destroyed
		const long f0 = fast;
		VH_CHECK(vh::await([&] { return fast > f0 + 5; }, 30), "own-period", "the engine of a period of 1 ms has stopped evaluating; " << d.str());
		for (int q = 0; q < 40; ++q)
		{
			b.incrementInputPlace("P");
			if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
			if (r.chance(1, 8))
			{
				b.stop();
				b.setEventLoopSleepDuration(std::chrono::milliseconds(1 + r.below(3)));
				b.execute();
			}
			if (r.chance(1, 8))
			{
				std::atomic<long> x{ 0 };
				ptne::PTN_Engine t(kThreaded[r.below(3)]);
				t.createPlace({ .name = "P", .initialNumberOfTokens = 1, .input = true });
				ptne::TransitionProperties tp;
				tp.name = "T";
				tp.activationArcs = { { .placeName = "P" } };
				tp.additionalConditions = { [&x] { ++x; return false; } };
				t.createTransition(tp);
				t.execute();
				t.incrementInputPlace("P");
				if (r.chance(1, 2)) t.stop();
			}
		}
		std::this_thread::sleep_for(std::chrono::milliseconds(5));
		for (int i = 0; i < k; ++i) VH_CHECK(st[i].passes <= n[i] + 3, "disturbed", "engine " << i << " was evaluated " << st[i].passes - n[i] << " times while only another engine was used; " << d.str());
		// its own input reaches it
		const int i = (int)r.below(k);
		es[i].incrementInputPlace("P");
		VH_CHECK(vh::await([&] { return st[i].passes > n[i]; }, 30), "own-input", "engine " << i << " does not react; " << d.str());
		vh::count("idle_rounds");
	}
	noise::off();
	for (auto &e : es) e.stop();
	vh::distinct(vh::hcomb(r.next(), k));
}

// ---------------------------------------------------------------------------------
// Engines within engines: actions and conditions of one build, feed and run others on the same thread.
// How many passes each run takes and what is left in every place are known exactly.

struct Inner
{
	std::unique_ptr<ptne::PTN_Engine> e;
	Mode mode;
	int width, depth;
	size_t waiting = 0, through = 0;
	std::vector<size_t> row;

	Inner(Rng &r, Mode m) : mode(m), width((int)r.range(1, 5)), depth((int)r.range(1, 3)), row(width, 0)
	{
		e = std::make_unique<ptne::PTN_Engine>(m);
		e->setEventLoopSleepDuration(std::chrono::hours(1));
		for (int w = 0; w < width; ++w)
			for (int d = 0; d <= depth; ++d) e->createPlace({ .name = name(w, d), .input = d == 0 });
		for (int w = 0; w < width; ++w)
			for (int d = 0; d < depth; ++d)
				e->createTransition({ .name = "T" + name(w, d), .activationArcs = { { .placeName = name(w, d) } }, .destinationArcs = { { .placeName = name(w, d + 1) } } });
	}
	static std::string name(int w, int d) { return "P" + std::to_string(w) + "_" + std::to_string(d); }
	void feed(Rng &r, int n)
	{
		for (int i = 0; i < n; ++i)
		{
			const int w = (int)r.below(width);
			e->incrementInputPlace(name(w, 0));
			++row[w];
		}
	}
	// Nothing but an execute() of its own moves its tokens.
	void check(const char *when)
	{
		for (int w = 0; w < width; ++w)
			VH_CHECK(e->getNumberOfTokens(name(w, 0)) == row[w], "nested", "a place of an engine that is not executing holds " << e->getNumberOfTokens(name(w, 0)) << " tokens instead of " << row[w] << " " << when);
		size_t out = 0;
		for (int w = 0; w < width; ++w) out += e->getNumberOfTokens(name(w, depth));
		VH_CHECK(out == through, "nested", out << " tokens have come through an engine instead of " << through << " " << when);
	}
	void run(Rng &r)
	{
		check("before a run");
		std::ostringstream o;
		e->execute(true, o);
		for (auto &n : row) through += n, n = 0;
		check("after a run");
		vh::count("nested_runs");
		(void)r;
	}
};

void nested(vh::Case &, Rng &r)
{
	const Mode outerMode = r.chance(1, 2) ? Mode::SINGLE_THREAD : Mode::EVENT_LOOP;
	const int nInner = (int)r.range(1, 3), width = (int)r.range(2, 8);
	const int fedAfter = (int)r.range(0, 3);
	std::ostringstream d;
	d << "nested: " << modeName(outerMode) << " of " << width << " transitions runs " << nInner << " engines in its " << "actions and conditions";
	vh::describe(d.str());
	std::vector<std::unique_ptr<Inner>> inner;
	for (int i = 0; i < nInner; ++i) inner.push_back(std::make_unique<Inner>(r, Mode::SINGLE_THREAD));
	Rng rr(r.next());
	auto use = [&]
	{
		Inner &x = *inner[rr.below(inner.size())];
		x.check("as another engine's function begins");
		x.feed(rr, (int)rr.range(0, 4));
		x.run(rr);
		// not to be touched until its next run
		x.feed(rr, fedAfter);
		if (rr.chance(1, 8))
		{
			// an engine that lives within an action
			Inner y(rr, Mode::SINGLE_THREAD);
			y.feed(rr, 3);
			y.run(rr);
		}
	};
	const bool onExit = r.chance(1, 2), onEnter = !onExit || r.chance(1, 2), inConditions = r.chance(1, 3);
	struct Result
	{
		long passes = 0, entered = 0, exited = 0, asked = 0;
	};
	// the same net, with or without the use of the others
	auto runOuter = [&](bool nest)
	{
		vh::Gate done;
		std::atomic<long> entered{ 0 }, exited{ 0 }, asked{ 0 };
		ptne::PTN_Engine outer(outerMode);
		outer.setEventLoopSleepDuration(std::chrono::hours(1));
		for (int i = 0; i < width; ++i)
		{
			const auto n = std::to_string(i);
			ptne::PlaceProperties P{ .name = "P" + n, .initialNumberOfTokens = 1 }, Q{ .name = "Q" + n };
			P.onExitAction = [&] { ++exited; if (nest && onExit) use(); };
			Q.onEnterAction = [&] { if (nest && onEnter) use(); ++entered; done.add(); };
			outer.createPlace(P);
			outer.createPlace(Q);
			ptne::TransitionProperties t{ .name = "TP" + n, .activationArcs = { { .placeName = "P" + n } }, .destinationArcs = { { .placeName = "Q" + n } } };
			t.additionalConditions = { [&] { ++asked; if (nest && inConditions) use(); return true; } };
			outer.createTransition(t);
		}
		std::ostringstream log;
		outer.execute(true, log);
		done.waitFor(width);
		if (outerMode != Mode::SINGLE_THREAD) outer.stop();
		for (int i = 0; i < width; ++i)
			VH_CHECK(outer.getNumberOfTokens("P" + std::to_string(i)) == 0 && outer.getNumberOfTokens("Q" + std::to_string(i)) == 1, "nested", "the outer engine's token " << i << " has not come through");
		Result x{ 0, entered, exited, asked };
		const std::string t = log.str();
		for (size_t p = 0; (p = t.find("P0: ", p)) != std::string::npos; ++p) ++x.passes;
		return x;
	};
	const Result alone = runOuter(false), with = runOuter(true);
	for (auto &x : inner) x->check("after the outer engine's run");
	VH_CHECK(with.entered == width && with.exited == width, "nested", "of " << width << " firings of the outer engine, " << with.exited << " left, " << with.entered << " entered");
	if (outerMode == Mode::SINGLE_THREAD)
		VH_CHECK(with.passes == alone.passes && with.asked == alone.asked, "nested",
				 "the outer engine took " << with.passes << " passes and asked " << with.asked << " conditions; alone it takes " << alone.passes << " and asks " << alone.asked);
	vh::count("nested_outer_runs");
	vh::distinct(vh::hcomb(rr.next(), (uint64_t)(width * 16 + nInner * 4 + onExit * 2 + onEnter)));
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	if (c.index / 8 % 6 == 5) return nested(c, r);
	const int k = (int)(c.index / 8 + c.index) % 10;
	if (k < 4) parallel(c, r);
	else if (k < 7) interleaved(c, r);
	else if (k == 7) held(c, r);
	else if (k == 8) ring(c, r);
	else idle(c, r);
}
