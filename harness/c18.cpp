// C18: teardown and reconfiguration with actions in flight.
// Every user function carries a canary and owns heap data; live copies are counted exactly.
#include "game.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <dirent.h>
#include <sstream>
#include <unistd.h>
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_ALLOC_STATS 1
#else
#define HAVE_ALLOC_STATS 0
#endif

const char *vh_property = "C18";
using namespace game;
using vh::Rng;

namespace
{
constexpr uint64_t ALIVE = 0x600dca11600dca11ull, DEAD = 0xdeadca11deadca11ull;

//! Outlives the engine: kept alive by the harness, as the property requires of what actions capture.
struct World
{
	std::atomic<long> live{ 0 };   //!< copies of user functions
	std::atomic<long> begun{ 0 }, ended{ 0 };
	std::atomic<long> perAction[64] = {};
	std::atomic<int> phase{ 0 };   //!< 0: engine exists
	std::atomic<int> slowUs{ 0 };
	std::atomic<bool> hold{ false }; //!< actions wait on the gate
	std::atomic<long> held{ 0 };
	std::atomic<long> afterDestruction{ 0 };
	std::atomic<bool> cond{ true };
	vh::Gate gate;
	uint64_t salt = 0;
};

//! A user function: callable as an action and as a condition.
class Fn
{
public:
	Fn(World &w, int id, bool condition)
	: m_w(&w)
	, m_id(id)
	, m_condition(condition)
	, m_data(8 + id % 40, (unsigned char)(id * 7 + 1))
	{
		++m_w->live;
	}
	Fn(const Fn &o)
	: m_w(o.m_w)
	, m_id(o.m_id)
	, m_condition(o.m_condition)
	, m_data(o.m_data)
	{
		o.verify("copied");
		++m_w->live;
	}
	Fn &operator=(const Fn &) = delete;
	~Fn()
	{
		verify("destroyed");
		m_magic = DEAD;
		--m_w->live;
	}
	bool operator()() const
	{
		verify("called");
		if (m_condition) return m_w->cond.load(std::memory_order_relaxed);
		++m_w->begun;
		++m_w->perAction[m_id % 64];
		if (m_w->hold)
		{
			++m_w->held;
			m_w->gate.waitFor(1);
		}
		const int us = m_w->slowUs;
		if (us > 0) usleep((useconds_t)(vh::mix(m_w->salt + m_w->begun) % us));
		if (m_w->phase == 2) ++m_w->afterDestruction;
		verify("finishing");
		++m_w->ended;
		return true;
	}

private:
	void verify(const char *when) const
	{
		VH_CHECK(m_magic == ALIVE && m_data.size() == size_t(8 + m_id % 40) && m_data.back() == (unsigned char)(m_id * 7 + 1), "use-after-free",
				 "a user function was " << when << " after it had been destroyed (or never constructed)");
	}
	uint64_t m_magic = ALIVE;
	World *m_w;
	int m_id;
	bool m_condition;
	std::vector<unsigned char> m_data;
};

int entries(const char *dir)
{
	int n = 0;
	DIR *d = opendir(dir);
	if (!d) return -1;
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}

int threads() { return entries("/proc/self/task"); }
int fds() { return entries("/proc/self/fd"); }

struct Net
{
	int nP = 0, nT = 0;
	std::vector<std::string> places, inputs;
};

const Mode modes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

Net build(PTN_Engine &e, World &w, Rng &r, int gen, const std::string &salt, bool registered = true)
{
	Net n;
	n.nP = (int)r.range(1, 6);
	n.nT = (int)r.range(1, 5);
	const std::string reg = salt + std::to_string(gen) + " ";
	e.createPlace({ .name = "fuel", .initialNumberOfTokens = (size_t)r.range(1, 120) });
	n.places.push_back("fuel");
	for (int i = 0; i < n.nP; ++i)
	{
		ptne::PlaceProperties p;
		p.name = "P" + std::to_string(i);
		p.initialNumberOfTokens = r.below(4);
		p.input = i == 0 || r.chance(1, 2);
		if (p.input) n.inputs.push_back(p.name);
		if (r.chance(4, 5))
		{
			if (registered && r.chance(1, 2))
			{
				p.onEnterActionFunctionName = reg + "enter" + std::to_string(i);
				e.registerAction(p.onEnterActionFunctionName, Fn(w, i, false));
			}
			else
				p.onEnterAction = Fn(w, i, false);
		}
		if (r.chance(3, 5))
		{
			if (registered && r.chance(1, 2))
			{
				p.onExitActionFunctionName = reg + "exit" + std::to_string(i);
				e.registerAction(p.onExitActionFunctionName, Fn(w, 20 + i, false));
			}
			else
				p.onExitAction = Fn(w, 20 + i, false);
		}
		e.createPlace(p);
		n.places.push_back(p.name);
	}
	auto place = [&] { return "P" + std::to_string(r.below(n.nP)); };
	for (int i = 0; i < n.nT; ++i)
	{
		ptne::TransitionProperties t;
		t.name = "T" + std::to_string(i);
		t.activationArcs = { { .placeName = "fuel" } };
		t.activationArcs.push_back({ .weight = 1 + r.below(2), .placeName = place() });
		const int dests = (int)r.range(0, std::min(2, n.nP));
		std::set<std::string> d;
		while ((int)d.size() < dests) d.insert(place());
		for (auto &x : d) t.destinationArcs.push_back({ .weight = 1 + r.below(2), .placeName = x });
		if (r.chance(1, 6))
		{
			std::string p = place();
			if (p != t.activationArcs[1].placeName) t.inhibitorArcs = { { .placeName = p } };
		}
		if (r.chance(1, 3))
		{
			if (registered && r.chance(1, 2))
			{
				t.additionalConditionsNames = { reg + "cond" + std::to_string(i) };
				e.registerCondition(t.additionalConditionsNames[0], Fn(w, 40 + i, true));
			}
			else
				t.additionalConditions = { Fn(w, 40 + i, true), Fn(w, 50 + i, true) };
		}
		t.requireNoActionsInExecution = r.chance(1, 5);
		e.createTransition(t);
	}
	return n;
}

struct Script
{
	int rounds = 1;
	bool held = false;
	int producers = 0;
	bool persist = false;
	bool replaceWhileHeld = true;
	bool brief = false; //!< no bookkeeping (measured cycles)
};

void note(const Script &s, const char *what)
{
	if (!s.brief) vh::count(what);
}

//! One life of an engine. Returns with every user function destroyed and every thread gone.
uint64_t life(World &w, Rng r, const Script &s, const std::string &tmp, int baseThreads)
{
	uint64_t h = 1;
	w.phase = 0;
	w.hold = false;
	w.held = 0;
	w.cond = true;
	w.salt = r.next();
	w.slowUs = r.chance(1, 2) ? (int)r.below(400) : 0;
	Mode mode = modes[r.below(4)];
	std::string log = modeName(mode);
	auto say = [&](const std::string &x)
	{
		if (s.brief) return;
		log += " " + x;
		vh::describe(log);
	};
	auto engine = std::make_unique<PTN_Engine>(mode);
	auto &e = *engine;
	e.setEventLoopSleepDuration(std::chrono::milliseconds(r.chance(1, 3) ? 3600000 : 1 + r.below(3)));
	std::thread releaser;
	auto release = [&](int us)
	{
		// actions held on engine threads are let go from outside
		if (releaser.joinable()) releaser.join();
		releaser = std::thread([&w, us] {
			if (us > 0) usleep((useconds_t)us);
			w.hold = false;
			w.gate.add();
		});
	};
	std::ostringstream logs[16];
	int nLogs = 0;
	bool onlyDetached = true;
	bool destroyed = false;
	for (int round = 0; round < s.rounds && !destroyed; ++round)
	{
		Net n = build(e, w, r, round, "f");
		bool cleared = false;
		say("build");
		mode = e.getActionsThreadOption();
		const bool async = mode == Mode::DETACHED || mode == Mode::JOB_QUEUE;
		if (w.hold && !async) release(0); // still held since the last round
		// actions can be held only on threads other than this one
		const bool hold = s.held && mode != Mode::SINGLE_THREAD && w.gate.value() == 0;
		if (hold) w.hold = true;
		onlyDetached &= mode == Mode::DETACHED;
		if (mode == Mode::SINGLE_THREAD)
		{
			for (int i = 0; i < (int)r.below(12); ++i) e.incrementInputPlace(r.pick(n.inputs));
			e.execute();
			say("run");
		}
		else
		{
			if (mode == Mode::DETACHED || mode == Mode::JOB_QUEUE)
				for (int i = 0; i < (int)r.below(5); ++i) e.incrementInputPlace(r.pick(n.inputs));
			if (nLogs < 16 && r.chance(1, 4)) e.execute(true, logs[nLogs++]);
			else e.execute();
			say("execute");
			if (!hold || async)
			{
				std::vector<std::thread> th;
					for (int k = 0; k < s.producers; ++k)
					th.emplace_back([&, rr = Rng(r.next()), cnt = 3 + (int)r.below(25)]() mutable {
						for (int i = 0; i < cnt; ++i)
						{
							try
							{
								e.incrementInputPlace(rr.pick(n.inputs));
							}
							catch (const ptne::PTN_Exception &)
							{
								// the net is being cleared
							}
							if (rr.chance(1, 4)) usleep((useconds_t)rr.below(60));
						}
					});
				const int incs = (int)r.below(30);
				for (int i = 0; i < incs; ++i) e.incrementInputPlace(r.pick(n.inputs));
				// clear the net, or stop, while the producers are still at it
				if (s.producers > 0 && r.chance(1, 3))
				{
					if (r.chance(1, 2)) usleep((useconds_t)r.below(300));
					if (hold && mode == Mode::EVENT_LOOP) release(0);
					e.stop();
					say("clear under load");
					e.clearNet();
					cleared = true;
					note(s, "nets_cleared_under_load");
				}
				for (auto &t : th) t.join();
			}
		}
		if (r.chance(1, 4)) w.cond = !w.cond;
		if (!hold && r.chance(1, 2)) usleep((useconds_t)r.below(700));
		if (s.persist)
		{
			auto x = ptne::FileExporterFactory::createXMLFileExporter();
			try
			{
				x->_export(e, tmp + "/c18.xml");
				if (!e.isEventLoopRunning() && r.chance(1, 2))
				{
					PTN_Engine other(Mode::SINGLE_THREAD);
					ptne::FileImporterFactory::createXMLFileImporter()->_import(tmp + "/c18.xml", other);
				}
			}
			catch (const ptne::PTN_Exception &)
			{
				// functions unknown to the second engine
			}
		}
		const bool running = e.isEventLoopRunning();
		const long inFlight = w.begun - w.ended;
		if (inFlight > 0) note(s, "reconfigured_with_actions_running");
		const int what = round + 1 == s.rounds ? 0 : (int)r.below(5);
		h = vh::hcomb(h, what * 8 + (int)mode * 64 + running * 2 + (inFlight > 0));
		// an action held on the loop thread must be released for stop to return
		auto unblock = [&]
		{
			if (!hold) return;
			if (mode == Mode::EVENT_LOOP || w.gate.value() > 0) release((int)r.below(2000));
		};
		switch (what)
		{
		case 0: // destroy, running or stopped
		{
			const bool stopFirst = r.chance(1, 3);
			if (stopFirst)
			{
				unblock();
				e.stop();
				say("stop");
			}
			say("destroy");
			if (w.hold && !onlyDetached)
			{
				release((int)r.below(3000)); // the running job is waited for
			}
			if (w.hold && onlyDetached) note(s, "destroyed_with_held_detached_actions");
			if (hold && mode == Mode::JOB_QUEUE && w.begun > w.ended) note(s, "destroyed_with_held_job");
			note(s, running && !stopFirst ? "destroyed_running" : "destroyed_stopped");
			w.phase = 1;
			engine.reset();
			w.phase = 2;
			destroyed = true;
			if (mode != Mode::DETACHED && s.rounds == 1)
			{
				VH_CHECK(w.begun == w.ended, "action-lost", "destroying the engine in " << modeName(mode) << " mode returned while " << w.begun - w.ended << " of its actions were still running");
			}
			break;
		}
		case 1: // stop, clear, go on
			unblock();
			e.stop();
			e.clearNet();
			say("clear");
			note(s, "cleared_with_use_continued");
			break;
		case 2: // stop, switch, clear
		case 3: // stop, clear, switch
		{
			unblock();
			e.stop();
			const Mode next = modes[r.below(4)];
			if (what == 3) e.clearNet();
			e.setActionsThreadOption(next);
			if (what == 2) e.clearNet();
			say(std::string("to ") + modeName(next));
			note(s, "thread_option_switches");
			break;
		}
		case 4: // several switches, some runs on the old net
		{
			unblock();
			e.stop();
			if (hold && w.gate.value() == 0) release(0);
			for (int i = 0; i < 3; ++i)
			{
				const Mode next = modes[r.below(4)];
				e.setActionsThreadOption(next);
				say(std::string("to ") + modeName(next));
				for (int k = cleared ? 6 : (int)r.below(7); k < 6; ++k) e.incrementInputPlace(r.pick(n.inputs));
				e.execute();
				e.stop();
				note(s, "thread_option_switches");
			}
			e.clearNet();
			break;
		}
		}
	}
	if (!destroyed) engine.reset();
	w.phase = 2;
	w.hold = false;
	w.gate.add();
	if (releaser.joinable()) releaser.join();
	// detached actions still running finish normally, and everything is released
	VH_CHECK(vh::await([&] { return w.begun == w.ended && w.live == 0; }), "leak-or-lost-action",
			 "20 s after the engine was destroyed: " << w.begun - w.ended << " actions have not finished, " << w.live << " copies of user functions were never destroyed");
	VH_CHECK(vh::await([&] { return threads() <= baseThreads; }), "thread-leak", "20 s after the engine was destroyed: " << threads() << " threads, " << baseThreads << " before");
	return h;
}

//! One engine, its net built, run and cleared again and again: nothing of a cleared net may remain.
void cycles(Rng r, const std::string &)
{
	World w;
	w.salt = r.next();
	w.slowUs = r.chance(1, 3) ? (int)r.below(200) : 0;
	const bool switching = r.chance(1, 3);
	const uint64_t seed = r.next();
	const Mode first = modes[r.below(4)];
	vh::describe(std::string("cycles in one engine, first ") + modeName(first) + (switching ? " switching" : "") + " seed=" + std::to_string(seed));
	PTN_Engine e(first);
	e.setEventLoopSleepDuration(std::chrono::milliseconds(1));
	const int baseThreads = threads();
	constexpr int WINDOWS = 6, PER = 5;
	size_t low[WINDOWS];
	long cleared = 0;
	for (int k = -1; k < WINDOWS; ++k)
	{
		if (k >= 0) low[k] = SIZE_MAX;
		for (int i = 0; i < PER; ++i)
		{
			{
				Rng q(seed);
				if (switching) e.setActionsThreadOption(modes[(i + (int)first) % 4]);
				const Mode mode = e.getActionsThreadOption();
				Net n = build(e, w, q, 0, "", false);
				const int restarts = (int)q.range(1, 3);
				for (int x = 0; x < restarts; ++x)
				{
					for (int j = (int)q.below(10); j > 0; --j) e.incrementInputPlace(q.pick(n.inputs));
					e.execute();
					if (mode != Mode::SINGLE_THREAD)
						for (int j = (int)q.below(10); j > 0; --j) e.incrementInputPlace(q.pick(n.inputs));
					e.stop();
				}
				for (auto &x : e.getPlacesProperties()) (void)x.name.size();
				for (auto &x : e.getTransitionsProperties()) (void)x.name.size();
				e.clearNet();
				++cleared;
			}
			VH_CHECK(vh::await([&] { return w.begun == w.ended && w.live == 0; }), "leak",
					 "20 s after the net was cleared: " << w.begun - w.ended << " actions have not finished, " << w.live << " copies of the cleared net's functions were never destroyed");
			VH_CHECK(vh::await([&] { return threads() <= baseThreads + 2; }), "thread-leak", threads() << " threads, " << baseThreads << " before");
			vh::tick();
#if HAVE_ALLOC_STATS
			if (k >= 0) low[k] = std::min(low[k], __sanitizer_get_current_allocated_bytes());
#endif
		}
	}
#if HAVE_ALLOC_STATS
	bool grows = true;
	for (int k = 1; k < WINDOWS; ++k) grows &= low[k] > low[k - 1];
	VH_CHECK(!grows, "leak", "the memory held after clearNet grows with every " << PER << " nets: " << low[0] << " .. " << low[WINDOWS - 1] << " bytes over " << WINDOWS * PER);
#endif
	vh::count("nets_cleared_in_one_engine", cleared);
	vh::distinct(seed);
}

//! Exact accounting: a chain whose every action is held until the engine is gone.
void heldChain(Rng r, const std::string &)
{
	World w;
	w.salt = r.next();
	const Mode mode = r.chance(2, 3) ? Mode::DETACHED : Mode::JOB_QUEUE;
	const int tokens = (int)r.range(1, 12), length = (int)r.range(1, 4);
	vh::describe(std::string("chain held in ") + modeName(mode) + " tokens=" + std::to_string(tokens) + " length=" + std::to_string(length));
	auto engine = std::make_unique<PTN_Engine>(mode);
	engine->setEventLoopSleepDuration(std::chrono::milliseconds(1));
	for (int i = 0; i <= length; ++i)
	{
		ptne::PlaceProperties p{ .name = "P" + std::to_string(i), .input = i == 0 };
		p.onEnterAction = Fn(w, 2 * i, false);
		p.onExitAction = Fn(w, 2 * i + 1, false);
		engine->createPlace(p);
	}
	for (int i = 0; i < length; ++i)
		engine->createTransition({ .name = "T" + std::to_string(i), .activationArcs = { { .placeName = "P" + std::to_string(i) } }, .destinationArcs = { { .placeName = "P" + std::to_string(i + 1) } } });
	w.hold = true;
	engine->execute();
	for (int i = 0; i < tokens; ++i) engine->incrementInputPlace("P0");
	const std::string last = "P" + std::to_string(length);
	VH_CHECK(vh::await([&] { return engine->getNumberOfTokens(last) == (size_t)tokens; }), "stuck", "tokens did not reach the end of the chain while its actions were held");
	const long total = (long)tokens * (2 * length + 1);
	const int how = (int)r.below(4);
	if (how >= 1) engine->stop();
	if (how == 2) engine->clearNet();
	if (how == 3)
	{
		engine->setActionsThreadOption(modes[r.below(4)]);
		engine->clearNet();
	}
	if (mode == Mode::DETACHED)
	{
		engine.reset();
		w.phase = 2;
		w.hold = false;
		w.gate.add();
		VH_CHECK(vh::await([&] { return w.ended == total; }), "action-lost", "detached actions triggered: " << total << ", finished 20 s after the engine was destroyed: " << w.ended);
		for (int i = 0; i <= length; ++i)
		{
			VH_CHECK(w.perAction[2 * i] == tokens && w.perAction[2 * i + 1] == (i < length ? tokens : 0), "action-lost", "actions of place " << i << " ran " << w.perAction[2 * i] << "/" << w.perAction[2 * i + 1] << " times");
		}
		vh::count("detached_actions_finished_after_destruction", total);
	}
	else if (how >= 2)
	{
		// cleared (and switched) with one job running and the rest waiting: all of them still run
		w.hold = false;
		w.gate.add();
		VH_CHECK(vh::await([&] { return w.ended == total; }), "action-lost", "actions triggered: " << total << ", finished 20 s after the net was cleared: " << w.ended);
		engine.reset();
		vh::count("queued_actions_finished_after_clear", total);
	}
	else
	{
		// the job being run is waited for, the rest may be dropped; nothing is run later
		std::thread rel([&, us = r.below(3000)] {
			usleep((useconds_t)us);
			w.hold = false;
			w.gate.add();
		});
		VH_CHECK(vh::await([&] { return w.begun >= 1; }), "stuck", "no action was started");
		engine.reset();
		const long at = w.begun;
		VH_CHECK(w.begun == w.ended, "action-lost", "the engine was destroyed with a job still running");
		rel.join();
		VH_CHECK(w.begun == at, "action-after-destruction", "a queued action was started after the engine was destroyed");
		vh::count("destroyed_with_queue");
	}
	VH_CHECK(vh::await([&] { return w.live == 0; }), "leak", w.live << " copies of user functions were never destroyed");
	vh::distinct(vh::hcomb(vh::hcomb((uint64_t)mode * 4 + how, tokens), length));
}
} // namespace

void vh_case(vh::Case &c, Rng &rng)
{
	noise::configure(rng.next(), rng.chance(1, 2) ? (int)rng.below(5) : 0, c.thorough ? 60000 : 20000);
	const int kind = (int)(c.index / 8 % 10);
	if (kind < 2)
	{
		heldChain(Rng(rng.next()), c.tmp);
		return;
	}
	if (kind == 3)
	{
		noise::off();
		cycles(Rng(rng.next()), c.tmp);
		return;
	}
	if (kind == 2 && HAVE_ALLOC_STATS)
	{
		// the same life again and again: what the process holds must not keep growing
#if HAVE_ALLOC_STATS
		noise::off();
		Script s;
		s.brief = true;
		s.rounds = (int)rng.range(1, 3);
		s.producers = rng.chance(1, 2) ? 1 : 0;
		s.persist = true;
		const uint64_t seed = rng.next();
		vh::describe("repeated life seed=" + std::to_string(seed) + " rounds=" + std::to_string(s.rounds));
		const int baseThreads = threads();
		constexpr int WINDOWS = 6, PER = 5;
		size_t low[WINDOWS];
		int fdLow[WINDOWS];
		for (int i = 0; i < 3; ++i)
		{
			World w;
			life(w, Rng(seed), s, c.tmp, baseThreads);
		}
		for (int k = 0; k < WINDOWS; ++k)
		{
			low[k] = SIZE_MAX;
			fdLow[k] = 1 << 30;
			for (int i = 0; i < PER; ++i)
			{
				{
					World w;
					life(w, Rng(seed), s, c.tmp, baseThreads);
				}
				vh::tick();
				low[k] = std::min(low[k], __sanitizer_get_current_allocated_bytes());
				fdLow[k] = std::min(fdLow[k], fds());
			}
		}
		bool grows = true, fdGrows = true;
		for (int k = 1; k < WINDOWS; ++k)
		{
			grows &= low[k] > low[k - 1];
			fdGrows &= fdLow[k] > fdLow[k - 1];
		}
		VH_CHECK(!grows, "leak", "the memory held after an engine's life grows with every " << PER << " lives: " << low[0] << " .. " << low[WINDOWS - 1] << " bytes over " << WINDOWS * PER);
		VH_CHECK(!fdGrows, "descriptor-leak", "the descriptors held after an engine's life grow: " << fdLow[0] << " .. " << fdLow[WINDOWS - 1]);
		vh::count("lives_measured_for_growth", WINDOWS * PER);
		vh::distinct(seed);
#endif
		return;
	}
	Script s;
	s.rounds = rng.chance(1, 2) ? 1 : (int)rng.range(2, 6);
	s.held = rng.chance(1, 2);
	s.producers = rng.chance(1, 2) ? (int)rng.range(1, 3) : 0;
	s.persist = rng.chance(1, 10);
	World w;
	const int baseThreads = threads();
	const uint64_t h = life(w, Rng(rng.next()), s, c.tmp, baseThreads);
	vh::count("actions_run", w.ended);
	vh::count("actions_finishing_after_destruction", w.afterDestruction);
	vh::count("lives");
	if (w.ended > 0) vh::distinct(vh::hcomb(h, w.ended));
	if (w.ended > 0) vh::sample(std::to_string(s.rounds) + " nets in one engine, actions run: " + std::to_string(w.ended) + ", ended after destruction: " + std::to_string(w.afterDestruction));
}
