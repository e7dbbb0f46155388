// C17: the public API is free of data races and deadlocks.
#include "game.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include <array>
#include <deque>
#include <sstream>
#include <unistd.h>

const char *vh_property = "C17";
using namespace game;
using vh::Rng;
using Type = ArcProperties::Type;

namespace
{
enum Op
{
	CREATE_PLACE,
	CREATE_TRANSITION,
	REGISTER_ACTION,
	REGISTER_CONDITION,
	EXECUTE,
	STOP,
	INCREMENT,
	TOKENS,
	PRINT,
	GET_MODE,
	SET_MODE,
	GET_SLEEP,
	SET_SLEEP,
	ADD_ARC,
	REMOVE_ARC,
	CLEAR,
	PLACES,
	TRANSITIONS,
	RUNNING,
	EXPORT,
	NOPS
};
const char *opNames[] = { "createPlace", "createTransition", "registerAction", "registerCondition", "execute", "stop", "incrementInputPlace", "getNumberOfTokens", "printState",
						  "getActionsThreadOption", "setActionsThreadOption", "getEventLoopSleepDuration", "setEventLoopSleepDuration", "addArc", "removeArc", "clearNet",
						  "getPlacesProperties", "getTransitionsProperties", "isEventLoopRunning", "export" };

//! Plain counters of one thread, merged at the end: no synchronisation that could hide a race.
struct Counters
{
	std::array<long, NOPS> calls{}, refused{};
	std::array<std::array<char, NOPS + 1>, NOPS> pairs{};
};

struct Shared
{
	std::array<std::atomic<int>, NOPS + 1> inFlight{}; //!< relaxed; NOPS: an action
	std::atomic<bool> quiet{ false };
	std::atomic<int> activeActions{ 0 };
	std::atomic<int> reentrantLeft{ 0 };
	std::atomic<uint64_t> seed{ 1 };
	std::atomic<bool> cond[4] = {};
	std::atomic<long> actions{ 0 }, calledByActions{ 0 };
	std::atomic<char> actionPairs[NOPS] = {};
	PTN_Engine *e = nullptr;
	bool reentrant = false;
	int slowUs = 0;
	std::vector<Mode> modes;
	std::vector<std::pair<Op, int>> weights; //!< operations of this case
	int total = 0;
	std::string tmp;
};

Op choose(Shared &s, Rng &r)
{
	int k = (int)r.below(s.total);
	for (auto &[o, w] : s.weights)
		if ((k -= w) < 0) return o;
	return TOKENS;
}

ptne::ActionFunction action(const std::shared_ptr<Shared> &s);

//! The streams of logging runs outlive the run.
struct Streams
{
	std::deque<std::ostringstream> s;
};

void call(const std::shared_ptr<Shared> &sp, Rng &r, Op op, Counters *c, Streams *streams)
{
	Shared &s = *sp;
	auto &e = *s.e;
	if (c)
	{
		++c->calls[op];
		for (int i = 0; i <= NOPS; ++i)
			if (s.inFlight[i].load(std::memory_order_relaxed) > 0) c->pairs[op][i] = 1;
	}
	else
		s.actionPairs[op].store(1, std::memory_order_relaxed);
	s.inFlight[op].fetch_add(1, std::memory_order_relaxed);
	auto place = [&] { return "P" + std::to_string(r.below(6)); };
	auto trans = [&] { return "T" + std::to_string(r.below(6)); };
	auto fname = [&](const char *p) { return p + std::to_string(r.below(4)); };
	try
	{
		switch (op)
		{
		case CREATE_PLACE:
		{
			if (r.chance(1, 4))
			{
				e.createPlace({ .name = "fuel", .initialNumberOfTokens = 25 });
				break;
			}
			ptne::PlaceProperties p{ .name = r.chance(1, 3) ? "P" + std::to_string(r.below(300)) : place(), .initialNumberOfTokens = r.below(3), .input = r.chance(2, 3) };
			if (r.chance(1, 2)) p.onEnterActionFunctionName = fname("A");
			else p.onEnterAction = action(sp);
			if (r.chance(1, 2)) p.onExitAction = action(sp);
			e.createPlace(p);
			break;
		}
		case CREATE_TRANSITION:
		{
			ptne::TransitionProperties t{ .name = r.chance(1, 4) ? "T" + std::to_string(r.below(300)) : trans() };
			t.activationArcs = { { .placeName = "fuel" }, { .weight = 1 + r.below(2), .placeName = place() } };
			if (r.chance(1, 2)) t.destinationArcs = { { .weight = 1 + r.below(3), .placeName = place() } };
			if (r.chance(1, 4)) t.inhibitorArcs = { { .placeName = place() } };
			if (r.chance(1, 3)) t.additionalConditionsNames = { fname("C") };
			else if (r.chance(1, 2)) t.additionalConditions = { [sp] { return sp->cond[0].load(std::memory_order_relaxed); } };
			t.requireNoActionsInExecution = r.chance(1, 3);
			e.createTransition(t);
			break;
		}
		case REGISTER_ACTION: e.registerAction("A" + std::to_string(r.below(60)), action(sp)); break;
		case REGISTER_CONDITION: e.registerCondition("C" + std::to_string(r.below(60)), [sp] { return sp->cond[1].load(std::memory_order_relaxed); }); break;
		case EXECUTE:
			if (streams && r.chance(1, 3))
			{
				streams->s.emplace_back();
				e.execute(true, streams->s.back());
			}
			else
				e.execute();
			break;
		case STOP: e.stop(); break;
		case INCREMENT: e.incrementInputPlace(place()); break;
		case TOKENS: (void)e.getNumberOfTokens(place()); break;
		case PRINT:
		{
			std::ostringstream o;
			e.printState(o);
			break;
		}
		case GET_MODE: (void)e.getActionsThreadOption(); break;
		case SET_MODE: e.setActionsThreadOption(s.modes[r.below(s.modes.size())]); break;
		case GET_SLEEP: (void)e.getEventLoopSleepDuration(); break;
		case SET_SLEEP: e.setEventLoopSleepDuration(std::chrono::milliseconds(r.chance(1, 4) ? 3600000 : 1 + r.below(10))); break;
		case ADD_ARC: e.addArc({ .weight = r.below(3), .placeName = place(), .transitionName = trans(), .type = (Type)r.below(4) }); break;
		case REMOVE_ARC: e.removeArc({ .placeName = place(), .transitionName = trans(), .type = (Type)r.below(4) }); break;
		case CLEAR: e.clearNet(); break;
		case PLACES:
			for (auto &p : e.getPlacesProperties())
				if (p.name.empty()) vh::fail("torn", "place without a name");
			break;
		case TRANSITIONS:
			for (auto &t : e.getTransitionsProperties())
				if (t.activationArcs.empty()) vh::fail("torn", "transition without its activation arcs");
			break;
		case RUNNING: (void)e.isEventLoopRunning(); break;
		case EXPORT:
		{
			const std::string f = s.tmp + "/x" + std::to_string(r.next()) + ".xml";
			auto x = ptne::FileExporterFactory::createXMLFileExporter();
			try
			{
				x->_export(e, f);
			}
			catch (...)
			{
				unlink(f.c_str());
				throw;
			}
			unlink(f.c_str());
			break;
		}
		case NOPS: break;
		}
	}
	catch (const ptne::PTN_Exception &)
	{
		if (c) ++c->refused[op];
	}
	catch (const std::exception &x)
	{
		vh::fail("wrong-exception", std::string(opNames[op]) + " threw something that is no PTN_Exception: " + x.what());
	}
	s.inFlight[op].fetch_sub(1, std::memory_order_relaxed);
	vh::tick();
}

ptne::ActionFunction action(const std::shared_ptr<Shared> &sp)
{
	return [sp]
	{
		Shared &s = *sp;
		s.actions.fetch_add(1, std::memory_order_relaxed);
		s.inFlight[NOPS].fetch_add(1, std::memory_order_relaxed);
		if (s.slowUs) std::this_thread::sleep_for(std::chrono::microseconds(s.slowUs));
		if (s.reentrant)
		{
			s.activeActions.fetch_add(1);
			if (!s.quiet.load() && s.reentrantLeft.fetch_sub(1, std::memory_order_relaxed) > 0)
			{
				Rng r(vh::mix(s.seed.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed)));
				for (int k = 1 + (int)r.below(3); k > 0; --k)
				{
					call(sp, r, choose(s, r), nullptr, nullptr);
					s.calledByActions.fetch_add(1, std::memory_order_relaxed);
				}
			}
			s.activeActions.fetch_sub(1);
		}
		s.inFlight[NOPS].fetch_sub(1, std::memory_order_relaxed);
	};
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	auto sp = std::make_shared<Shared>();
	Shared &s = *sp;
	s.tmp = c.tmp;
	s.reentrant = r.chance(1, 2);
	s.modes = s.reentrant ? std::vector<Mode>{ Mode::JOB_QUEUE, Mode::DETACHED } : std::vector<Mode>{ Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
	if (r.chance(1, 2)) s.modes = { r.pick(s.modes) };
	s.slowUs = r.chance(1, 2) ? (int)r.below(300) : 0;
	s.reentrantLeft = 20 + (int)r.below(200);
	s.seed = r.next();
	for (auto &b : s.cond) b = r.chance(2, 3);
	// which calls: a few of them, or all
	std::vector<int> ops(NOPS);
	for (int i = 0; i < NOPS; ++i) ops[i] = i;
	r.shuffle(ops);
	const int kinds = r.chance(1, 3) ? (int)NOPS : 2 + (int)r.below(5);
	for (int i = 0; i < kinds; ++i)
	{
		const Op o = (Op)ops[i];
		const int w = o == CLEAR ? 1 : o == EXPORT ? 2 : o == INCREMENT ? 12 : o == EXECUTE || o == STOP ? 6 : 5;
		s.weights.push_back({ o, w });
	}
	// something happens
	s.weights.push_back({ INCREMENT, 6 });
	s.weights.push_back({ EXECUTE, 2 });
	if (r.chance(1, 2)) s.weights.push_back({ STOP, 2 });
	for (auto &[o, w] : s.weights) s.total += w;
	std::deque<Streams> streams;
	std::vector<Counters> counters;
	const int nT = 2 + (int)r.below(5), nOps = (c.thorough ? 100 : 40) + (int)r.below(120);
	{
		std::ostringstream d;
		d << (s.reentrant ? "re-entrant " : "") << nT << " threads x " << nOps << " calls, modes";
		for (auto m : s.modes) d << " " << modeName(m);
		d << ", calls";
		for (auto &[o, w] : s.weights) d << " " << opNames[o];
		vh::describe(d.str());
		if (c.index < 3) vh::sample(d.str());
	}
	counters.resize(nT);
	for (int t = 0; t < nT; ++t) streams.emplace_back();
	{
		PTN_Engine e(r.pick(s.modes));
		s.e = &e;
		e.setEventLoopSleepDuration(std::chrono::milliseconds(1 + r.below(5)));
		Counters setup;
		e.registerAction("A0", action(sp));
		e.registerAction("A1", action(sp));
		e.registerCondition("C0", [sp] { return sp->cond[2].load(std::memory_order_relaxed); });
		e.registerCondition("C1", [sp] { return sp->cond[3].load(std::memory_order_relaxed); });
		e.createPlace({ .name = "fuel", .initialNumberOfTokens = 60 });
		for (int i = 0; i < 6; ++i) e.createPlace({ .name = "P" + std::to_string(i), .onEnterAction = action(sp), .onExitAction = action(sp), .input = true });
		for (int i = 0; i < 5; ++i) call(sp, r, CREATE_TRANSITION, &setup, nullptr);
		if (r.chance(3, 4)) e.execute();
		noise::configure(r.next(), (int)r.below(5), 40000);
		std::atomic<int> go{ 0 };
		std::vector<std::thread> th;
		for (int t = 0; t < nT; ++t)
			th.emplace_back(
			[&, t, seed = r.next()]
			{
				Rng q(seed);
				Counters &k = counters[t];
				go.fetch_add(1, std::memory_order_relaxed);
				while (go.load(std::memory_order_relaxed) < nT) std::this_thread::yield();
				const Op fixed = choose(s, q);
				const bool stick = q.chance(1, 4);
				for (int i = 0; i < nOps; ++i)
				{
					call(sp, q, stick && q.chance(2, 3) ? fixed : choose(s, q), &k, &streams[t]);
					if (q.chance(1, 16)) s.cond[q.below(4)].store(q.chance(2, 3), std::memory_order_relaxed);
					if (q.chance(1, 10)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(80)));
				}
			});
		for (auto &t : th) t.join();
		noise::off();
		// the engine still answers
		Counters end;
		for (Op o : { TOKENS, PLACES, TRANSITIONS, PRINT, RUNNING }) call(sp, r, o, &end, nullptr);
		s.quiet = true;
		vh::check(vh::await([&] { return s.activeActions.load() == 0; }, 60), "stuck-action", [] { return std::string("an action calling the engine does not return"); });
		e.stop();
		// an execute() made by an action before it went quiet
		VH_CHECK(!e.isEventLoopRunning(), "running", "running after stop() although no thread calls execute()");
	}
	// detached actions use only what they share
	uint64_t h = vh::hcomb(nT, s.reentrant);
	for (auto &k : counters)
		for (int o = 0; o < NOPS; ++o)
		{
			if (k.calls[o]) vh::count(std::string("calls_") + opNames[o], (uint64_t)k.calls[o]);
			if (k.refused[o]) vh::count("refused", (uint64_t)k.refused[o]);
			for (int i = 0; i <= NOPS; ++i)
				if (k.pairs[o][i])
				{
					h = vh::hcomb(h, o * 64 + i);
					vh::count("overlapping_pairs_of_calls");
					if (i == NOPS) vh::count("overlapping_with_actions");
				}
		}
	vh::count("calls_made_by_actions", (uint64_t)s.calledByActions.load());
	vh::count("actions", (uint64_t)s.actions.load());
	vh::count(s.reentrant ? "cases_with_reentrant_actions" : "cases_without_reentrant_actions");
	vh::distinct(h);
}
