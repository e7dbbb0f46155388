// C20: exceptions of user code reach the caller and leave the engine usable.
#include "game.h"
#include <sstream>
#include <system_error>
#include <typeinfo>

const char *vh_property = "C20";
using namespace game;
using vh::Rng;

namespace
{
struct Plain
{
	uint64_t id;
	std::vector<int> payload;
};
struct Base
{
	virtual ~Base() = default;
	uint64_t id = 0;
};
struct Derived : Base
{
	std::string text;
};
struct Std : std::runtime_error
{
	explicit Std(const std::string &s, uint64_t i)
	: std::runtime_error(s)
	, id(i)
	{
	}
	uint64_t id;
};
struct Ptn : ptne::PTN_Exception
{
	explicit Ptn(uint64_t i)
	: PTN_Exception("user " + std::to_string(i))
	, id(i)
	{
	}
	uint64_t id;
};
constexpr int KINDS = 13;

[[noreturn]] void raise(int kind, uint64_t id)
{
	switch (kind)
	{
	case 0: throw Plain{ id, { 1, 2, 3 } };
	case 1:
	{
		Derived d;
		d.id = id;
		d.text = "derived " + std::to_string(id);
		throw d;
	}
	case 2: throw Std("std " + std::to_string(id), id);
	case 3: throw Ptn(id);
	case 4: throw (long)id;
	case 5: throw std::string("string ") + std::to_string(id);
	case 6: throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "user " + std::to_string(id));
	case 7: throw std::bad_alloc();
	case 8: throw std::bad_function_call();
	case 9: throw std::bad_weak_ptr();
	case 10: throw ptne::PTN_Exception("user ptn " + std::to_string(id));
	case 11: throw std::out_of_range("user " + std::to_string(id));
	default: throw ptne::InvalidNameException("user " + std::to_string(id));
	}
}

//! What was caught is the object that was thrown: same type, same content.
std::string differs(int kind, uint64_t id, std::exception_ptr p)
{
	const std::string n = std::to_string(id);
	try
	{
		std::rethrow_exception(p);
	}
	catch (Plain &e)
	{
		return kind == 0 && e.id == id && e.payload == std::vector<int>{ 1, 2, 3 } ? "" : "a Plain";
	}
	catch (Base &e)
	{
		auto d = dynamic_cast<Derived *>(&e);
		return kind == 1 && d && d->id == id && d->text == "derived " + n ? "" : d ? "another Derived" : "a sliced Derived";
	}
	catch (Std &e)
	{
		return kind == 2 && e.id == id && e.what() == "std " + n ? "" : "another Std";
	}
	catch (long &e)
	{
		return kind == 4 && e == (long)id ? "" : "another long";
	}
	catch (std::string &e)
	{
		return kind == 5 && e == "string " + n ? "" : "another string";
	}
	catch (std::exception &e)
	{
		const std::type_info &t = typeid(e);
		const std::string w = e.what();
		const bool text = w.find(n) != std::string::npos;
		bool ok = false;
		switch (kind)
		{
		case 3: ok = t == typeid(Ptn) && static_cast<Ptn &>(e).id == id && text; break;
		case 6: ok = t == typeid(std::system_error) && static_cast<std::system_error &>(e).code() == std::errc::resource_unavailable_try_again && text; break;
		case 7: ok = t == typeid(std::bad_alloc); break;
		case 8: ok = t == typeid(std::bad_function_call); break;
		case 9: ok = t == typeid(std::bad_weak_ptr); break;
		case 10: ok = t == typeid(ptne::PTN_Exception) && text; break;
		case 11: ok = t == typeid(std::out_of_range) && text; break;
		case 12: ok = t == typeid(ptne::InvalidNameException) && text; break;
		}
		return ok ? "" : std::string(t.name()) + " (" + w + ")";
	}
	catch (...)
	{
		return "something else";
	}
}

struct GuardFn
{
	uint64_t c = 0, a = 1, m = 2;
	bool eval(size_t pos) const { return ((pos + c) / a) % m != 0; }
};

class Run
{
public:
	explicit Run(Rng r, bool thorough)
	: m_r(r)
	{
		GenOpts o;
		o.allActions = m_r.chance(2, 3);
		o.markers = true;
		o.reqNoOften = m_r.chance(1, 2);
		o.resets = m_r.chance(1, 2);
		if (thorough && m_r.chance(1, 6))
		{
			o.maxP = 14;
			o.maxT = 20;
		}
		Gen g = randomNet(m_r, o);
		net = g.net;
		nPlain = g.nPlain;
		bool any = false;
		for (int i = 0; i < nPlain; ++i) any |= net.P[i].input;
		if (!any) net.P[0].input = true;
		PlaceS f;
		f.name = "fuel";
		f.init = m_r.range(10, 120);
		f.enter = false;
		f.exit = m_r.chance(1, 2);
		net.P.push_back(f);
		for (auto &t : net.T) t.act.insert(t.act.begin() + (long)m_r.below(t.act.size() + 1), ArcS{ (int)net.P.size() - 1, 1 });
		for (int i = 0; i < o.numGuards; ++i) m_guards.push_back({ m_r.below(1000), 1 + m_r.below(4), 2 + m_r.below(3) });
		m_engine = std::make_unique<PTN_Engine>(Mode::SINGLE_THREAD);
		Callbacks cb;
		cb.enter = [this](int p) -> ptne::ActionFunction { return [this, p] { onAction(Event::ENTER, p); }; };
		cb.exit = [this](int p) -> ptne::ActionFunction { return [this, p] { onAction(Event::EXIT, p); }; };
		cb.guard = [this](int t, int k) -> ptne::ConditionFunction
		{
			return [this, gd = net.T[t].guards[k]]
			{
				maybeThrow(true);
				return m_guards[gd].eval(m_ev.size());
			};
		};
		game::build(*m_engine, net, cb, &m_r);
		m_marking = initial(net);
	}

	std::string describe() const { return show(net) + " M" + show(m_marking) + " history: " + m_log; }

	bool guardsTrue(int t, size_t pos) const
	{
		for (int g : net.T[t].guards)
			if (!m_guards[g].eval(pos)) return false;
		return true;
	}

	uint64_t go(int rounds, bool readers)
	{
		std::atomic<bool> stop{ false };
		std::atomic<long> reads{ 0 };
		std::vector<std::thread> th;
		if (readers)
			for (int i = 0; i < 2; ++i)
				th.emplace_back([&, i] {
					while (!stop)
					{
						(void)m_engine->getNumberOfTokens(net.P[i % net.P.size()].name);
						if (i) (void)m_engine->getTransitionsProperties();
						++reads;
						usleep(20);
					}
				});
		uint64_t h = hashNet(net);
		for (int i = 0; i < rounds; ++i)
		{
			vh::tick();
			inputs((int)m_r.below(4));
			const bool faulty = m_r.chance(4, 5);
			run(faulty, false);
			h = vh::hcomb(h, m_thrownTotal * 2 + m_lastFromGuard);
			if (m_r.chance(1, 3)) probe();
			if (m_r.chance(1, 4)) run(false, true);
		}
		if (readers)
		{
			const long at = reads;
			VH_CHECK(vh::await([&] { return reads >= at + 2; }), "unusable", "other threads no longer get answers");
			stop = true;
			for (auto &t : th) t.join();
			vh::count("reads_by_other_threads", reads);
		}
		run(false, true);
		if (m_r.chance(1, 2)) otherMode();
		vh::count("exceptions_from_conditions", m_fromGuards);
		vh::count("exceptions_from_actions", m_fromActions);
		vh::count("exceptions_from_inputs", m_fromInputs);
		vh::count("firings", m_firings);
		return h;
	}

	long thrown() const { return m_thrownTotal; }
	std::string log() const { return m_log; }
	NetS net;

private:
	void arm(bool inputsOnly)
	{
		m_armed = true;
		m_target = (int)m_r.below(4); // 0: conditions only, 1: actions only, else any
		if (inputsOnly) m_target = 1;
		m_countdown = inputsOnly ? 0 : (long)(m_r.chance(1, 2) ? m_r.below(4) : m_r.below(60));
		m_kind = (int)m_r.below(KINDS);
		m_id = m_r.next() >> 8;
		m_thrown = false;
	}

	void maybeThrow(bool guard)
	{
		vh::tick();
		if (!m_armed || (guard && m_target == 1) || (!guard && m_target == 0)) return;
		if (m_countdown-- > 0) return;
		m_armed = false;
		m_thrown = true;
		m_lastFromGuard = guard;
		raise(m_kind, m_id);
	}

	void onAction(Event::Kind k, int p)
	{
		if (m_fast)
		{
			++m_fastActions;
			return;
		}
		m_ev.push_back({ m_input ? Event::INC : k, p });
		maybeThrow(false);
	}

	void identity(std::exception_ptr p, const char *where)
	{
		const std::string d = differs(m_kind, m_id, p);
		VH_CHECK(d.empty(), "exception-changed", "the exception thrown by user code (kind " << m_kind << ", id " << m_id << ") reached the caller of " << where << " as " << d << " of " << describe());
	}

	void inputs(int n)
	{
		std::vector<int> in;
		for (int i = 0; i < nPlain; ++i)
			if (net.P[i].input && m_marking[i] < SIZE_MAX - 1000) in.push_back(i);
		if (in.empty()) return;
		for (int i = 0; i < n; ++i)
		{
			const int p = m_r.pick(in);
			const bool faulty = m_r.chance(1, 2);
			if (faulty) arm(true);
			else m_armed = false;
			m_input = true;
			m_thrown = false;
			bool caught = false;
			const size_t at = m_ev.size();
			try
			{
				m_engine->incrementInputPlace(net.P[p].name);
			}
			catch (...)
			{
				caught = true;
				VH_CHECK(m_thrown, "unexpected-exception", "incrementInputPlace threw by itself, of " << describe());
				identity(std::current_exception(), "incrementInputPlace");
				++m_fromInputs;
				++m_thrownTotal;
			}
			m_input = false;
			m_armed = false;
			m_log += " +" + net.P[p].name + (caught ? "!" : "");
			VH_CHECK(caught || !m_thrown, "exception-swallowed", "an on-enter action threw and incrementInputPlace returned normally, of " << describe());
			VH_CHECK(m_ev.size() == at + (net.P[p].enter ? 1 : 0), "wrong-actions", "incrementInputPlace ran " << m_ev.size() - at << " actions, of " << describe());
			++m_marking[p];
			const Marking now = observe(*m_engine, net);
			VH_CHECK(now == m_marking, "wrong-marking", "after incrementInputPlace(" << net.P[p].name << ")" << (caught ? ", which threw," : "") << " the marking is " << show(now) << " of " << describe());
			m_from = m_ev.size();
		}
	}

	//! Is `now` explained by a run whose last firing was cut short by the action of ev.back()?
	bool explained(const std::vector<Event> &ev, const Marking &now, bool &inconclusive)
	{
		size_t longest = 0;
		for (auto &t : net.T) longest = std::max(longest, t.act.size() + t.dest.size());
		for (size_t b = ev.size() > longest ? ev.size() - longest : 0; b < ev.size(); ++b)
		{
			const std::vector<Event> pre(ev.begin(), ev.begin() + (long)b);
			auto r = replay(net, m_marking, pre, [&](int t, size_t pos) { return guardsTrue(t, m_from + pos); });
			if (r.tooMany)
			{
				inconclusive = true;
				continue;
			}
			if (!r.ok) continue;
			for (auto &m : r.finals)
				for (size_t t = 0; t < net.T.size(); ++t)
				{
					auto &T = net.T[t];
					if (!tokenEnabled(T, m) || !guardsTrue((int)t, m_from + b)) continue;
					// the partial segment: exits, then (when all have been made) enters
					std::multiset<int> exits, enters;
					for (auto &a : T.act)
						if (net.P[a.place].exit) exits.insert(a.place);
					for (auto &a : T.dest)
						if (net.P[a.place].enter) enters.insert(a.place);
					std::set<int> exited, entered;
					bool fits = true;
					for (size_t i = b; i < ev.size() && fits; ++i)
					{
						if (ev[i].kind == Event::EXIT)
							fits = entered.empty() && exits.count(ev[i].place) && exited.insert(ev[i].place).second;
						else if (ev[i].kind == Event::ENTER)
							fits = exited.size() == exits.size() && enters.count(ev[i].place) && entered.insert(ev[i].place).second;
						else
							fits = false;
					}
					if (!fits) continue;
					// arcs whose action ran have moved their tokens, the others may have
					std::vector<std::pair<ArcS, bool>> maybe;
					Marking base = m;
					auto take = [](Marking &x, const ArcS &a) { x[a.place] = a.w == 0 ? 0 : x[a.place] - a.w; };
					for (auto &a : T.act)
						if (exited.count(a.place) || !entered.empty()) take(base, a);
						else maybe.push_back({ a, false });
					for (auto &a : T.dest)
						if (entered.count(a.place)) base[a.place] += a.w;
						else maybe.push_back({ a, true });
					for (uint64_t mask = 0; mask < (1ull << maybe.size()); ++mask)
					{
						Marking x = base;
						for (size_t k = 0; k < maybe.size(); ++k)
						{
							if (!(mask >> k & 1)) continue;
							if (maybe[k].second) x[maybe[k].first.place] += maybe[k].first.w;
							else take(x, maybe[k].first);
						}
						if (x == now) return true;
					}
				}
		}
		return false;
	}

	void run(bool faulty, bool toTheEnd)
	{
		m_from = m_ev.size();
		if (faulty) arm(false);
		else m_armed = false;
		m_thrown = false;
		bool caught = false;
		std::ostringstream os;
		try
		{
			if (m_r.chance(1, 8)) m_engine->execute(true, os);
			else m_engine->execute();
		}
		catch (...)
		{
			caught = true;
			VH_CHECK(m_thrown, "unexpected-exception", "execute threw by itself, of " << describe());
			identity(std::current_exception(), "execute");
			++m_thrownTotal;
			++(m_lastFromGuard ? m_fromGuards : m_fromActions);
		}
		m_armed = false;
		if (m_log.size() > 600) m_log.erase(0, 300);
		m_log += caught ? m_lastFromGuard ? " run!c" : " run!a" : " run";
		VH_CHECK(caught || !m_thrown, "exception-swallowed", "user code threw during execute, which returned normally, of " << describe());
		VH_CHECK(!m_engine->isEventLoopRunning(), "wrong-state", "the event loop is said to be running, of " << describe());
		const std::vector<Event> ev(m_ev.begin() + (long)m_from, m_ev.end());
		const Marking now = observe(*m_engine, net);
		if (caught && !m_lastFromGuard)
		{
			bool inconclusive = false;
			const bool ok = explained(ev, now, inconclusive);
			VH_CHECK(ok || inconclusive, "wrong-marking", "after an action threw the marking is " << show(now) << ", which the observed actions do not explain: " << show(net, ev, ev.size() > 40 ? ev.size() - 40 : 0, ev.size()) << " of " << describe());
			if (!ok) vh::count("inconclusive");
			else vh::count("markings_explained_after_action");
		}
		else
		{
			auto r = replay(net, m_marking, ev, [&](int t, size_t pos) { return guardsTrue(t, m_from + pos); });
			if (r.tooMany)
				vh::count("inconclusive");
			else
			{
				VH_CHECK(r.ok, caught ? "wrong-marking" : "illegal-run", "the observed actions are not those of legal firings; first unexplained " << r.stuckAt << ": " << show(net, ev, r.stuckAt, r.stuckAt + 12) << " at " << show(r.lastGood) << " of " << describe());
				VH_CHECK(r.finals.count(now), "wrong-marking", (caught ? "a condition threw and the marking is " : "the marking is ") << show(now) << ", not the one the observed firings lead to, e.g. " << show(*r.finals.begin()) << " of " << describe());
				m_firings += r.firings;
				vh::count(caught ? "markings_exact_after_condition" : "runs_after_exceptions", m_thrownTotal > 0);
			}
		}
		if (!caught)
			for (size_t t = 0; t < net.T.size(); ++t)
				VH_CHECK(!(tokenEnabled(net.T[t], now) && guardsTrue((int)t, m_ev.size())), "not-quiescent",
						 "after " << m_thrownTotal << " exceptions, execute returned although " << net.T[t].name << " is enabled at " << show(now) << " of " << describe());
		(void)toTheEnd;
		m_marking = now;
	}

	//! Every kind of call works.
	void probe()
	{
		auto &e = *m_engine;
		const std::string tag = "probe" + std::to_string(++m_probes);
		std::string at = "?";
		bool called = false;
		try
		{
			at = "getters";
			std::ostringstream os;
			e.printState(os);
			VH_CHECK(e.getPlacesProperties().size() >= net.P.size() && e.getTransitionsProperties().size() >= net.T.size(), "unusable", "introspection lost items, of " << describe());
			(void)e.getActionsThreadOption();
			at = "registerAction";
			e.registerAction(tag, [&called] { called = true; });
			at = "registerCondition";
			e.registerCondition(tag, [] { return true; });
			at = "createPlace";
			e.createPlace({ .name = tag, .onEnterActionFunctionName = tag, .input = true });
			e.createPlace({ .name = tag + " out" });
			at = "createTransition";
			e.createTransition({ .name = tag, .activationArcs = { { .placeName = tag } }, .additionalConditionsNames = { tag }, .requireNoActionsInExecution = true });
			at = "addArc";
			e.addArc({ .placeName = tag + " out", .transitionName = tag, .type = ArcProperties::Type::DESTINATION });
			at = "incrementInputPlace";
			e.incrementInputPlace(tag);
			VH_CHECK(called && e.getNumberOfTokens(tag) == 1, "unusable", "incrementInputPlace no longer works after an exception, of " << describe());
			at = "setEventLoopSleepDuration";
			const auto d = e.getEventLoopSleepDuration();
			e.setEventLoopSleepDuration(d);
			at = "setActionsThreadOption";
			for (Mode m : { Mode::JOB_QUEUE, Mode::DETACHED, Mode::EVENT_LOOP, Mode::SINGLE_THREAD }) e.setActionsThreadOption(m);
			at = "stop";
			e.stop();
			at = "execute";
			run(false, true);
			VH_CHECK(e.getNumberOfTokens(tag) == 0 && e.getNumberOfTokens(tag + " out") == 1, "unusable", "a transition created after an exception did not fire, of " << describe());
			at = "removeArc";
			e.removeArc({ .placeName = tag, .transitionName = tag, .type = ArcProperties::Type::ACTIVATION });
			// a transition without activation arcs would fire for ever
			e.addArc({ .placeName = tag + " out", .transitionName = tag, .type = ArcProperties::Type::INHIBITOR });
		}
		catch (const ptne::PTN_Exception &x)
		{
			vh::fail("unusable", at + " failed after an exception from user code: " + x.what() + " of " + describe());
		}
		vh::count("probes");
	}

	//! The engine runs normally in the other thread options, too.
	void otherMode()
	{
		auto &e = *m_engine;
		const Mode mode = m_r.chance(1, 3) ? Mode::EVENT_LOOP : m_r.chance(1, 2) ? Mode::JOB_QUEUE : Mode::DETACHED;
		e.setActionsThreadOption(mode);
		e.setEventLoopSleepDuration(std::chrono::milliseconds(1));
		// every activation place of a transition that has the requirement, through a fresh transition
		std::vector<int> ps;
		for (auto &t : net.T)
			if (t.reqNo)
				for (auto &a : t.act) ps.push_back(a.place);
		if (ps.empty()) ps.push_back(0);
		const int p = m_r.pick(ps);
		const size_t tokens = m_marking[p];
		if (tokens == 0) return;
		m_fast = true; // actions may now run on other threads
		std::atomic<bool> go{ false };
		e.createTransition({ .name = "other mode", .activationArcs = { { .placeName = net.P[p].name } }, .additionalConditions = { [&go] { return go.exchange(false); } }, .requireNoActionsInExecution = true });
		// nothing else may fire meanwhile
		e.createPlace({ .name = "hold", .initialNumberOfTokens = 1 });
		for (auto &t : net.T) e.addArc({ .placeName = "hold", .transitionName = t.name, .type = ArcProperties::Type::INHIBITOR });
		go = true;
		e.execute();
		VH_CHECK(vh::await([&] { return e.getNumberOfTokens(net.P[p].name) != tokens; }), "not-quiescent",
				 "in " << modeName(mode) << " mode a transition with requireNoActionsInExecution on " << net.P[p].name << " never fired after " << m_thrownTotal << " exceptions in SINGLE_THREAD mode, of " << describe());
		e.stop();
		VH_CHECK(vh::await([&] { return m_fastActions >= net.P[p].exit; }), "unusable", "an action triggered in " << modeName(mode) << " mode did not run, of " << describe());
		VH_CHECK(e.getNumberOfTokens(net.P[p].name) == tokens - 1, "wrong-marking", "wrong marking in " << modeName(mode) << " of " << describe());
		e.setActionsThreadOption(Mode::SINGLE_THREAD);
		m_engine.reset();
		vh::count("runs_in_other_modes");
	}

	Rng m_r;
	int nPlain = 0;
	std::vector<GuardFn> m_guards;
	Marking m_marking;
	std::vector<Event> m_ev;
	size_t m_from = 0;
	bool m_armed = false, m_thrown = false, m_lastFromGuard = false, m_input = false;
	std::atomic<bool> m_fast{ false };
	std::atomic<long> m_fastActions{ 0 };
	int m_target = 0, m_kind = 0, m_probes = 0;
	long m_countdown = 0;
	uint64_t m_id = 0;
	long m_thrownTotal = 0, m_fromGuards = 0, m_fromActions = 0, m_fromInputs = 0;
	size_t m_firings = 0;
	std::string m_log;
	std::unique_ptr<PTN_Engine> m_engine;
};

//! In EVENT_LOOP mode the on-enter actions of inputs run in the caller: what they throw reaches it, and the loop goes on.
uint64_t loopInputs(Rng &r)
{
	const int len = (int)r.range(1, 4), ins = (int)r.range(1, 3);
	const bool rq = r.chance(1, 2);
	std::ostringstream d;
	d << "inputs of a running net, " << ins << " input places, chain of " << len << (rq ? ", requireNoActionsInExecution" : "");
	std::string trail;
	vh::describe(d.str());
	auto say = [&] { return d.str() + ":" + trail; };
	PTN_Engine e(Mode::EVENT_LOOP);
	e.setEventLoopSleepDuration(std::chrono::hours(1));
	bool armed = false; // only used by this thread, through the actions of inputs
	int kind = 0;
	uint64_t id = 0;
	long calls = 0;
	std::atomic<long> arrivals{ 0 };
	auto P = [](int i) { return "p" + std::to_string(i); };
	for (int i = 0; i < ins; ++i)
		e.createPlace({ .name = "in" + std::to_string(i),
						.onEnterAction =
						[&]
						{
							++calls;
							if (!armed) return;
							armed = false;
							raise(kind, id);
						},
						.input = true });
	for (int i = 0; i < len; ++i) e.createPlace({ .name = P(i), .onEnterAction = [&arrivals, last = i + 1 == len] { vh::tick(); if (last) ++arrivals; } });
	for (int i = 0; i < ins; ++i)
		e.createTransition({ .name = "from in" + std::to_string(i), .activationArcs = { { .placeName = "in" + std::to_string(i) } }, .destinationArcs = { { .placeName = P(0) } }, .requireNoActionsInExecution = rq });
	for (int i = 0; i + 1 < len; ++i)
		e.createTransition({ .name = "t" + std::to_string(i), .activationArcs = { { .placeName = P(i) } }, .destinationArcs = { { .placeName = P(i + 1) } }, .requireNoActionsInExecution = rq });
	size_t in = 0;
	bool running = false;
	long thrown = 0;
	uint64_t h = (uint64_t)len * 8 + (uint64_t)ins * 2 + rq;
	const int steps = (int)r.range(3, 40);
	for (int s = 0; s <= steps; ++s)
	{
		const bool finish = s == steps;
		if (finish ? !running : r.chance(1, running ? 8 : 3))
		{
			if (running) e.stop();
			else e.execute();
			running = !running;
			trail += running ? " run" : " stop";
		}
		const int p = (int)r.below((uint64_t)ins);
		const bool faulty = r.chance(2, 3);
		armed = faulty;
		kind = (int)r.below(KINDS);
		id = r.next() >> 8;
		h = vh::hcomb(h, (uint64_t)p * 64 + faulty * 32 + (uint64_t)kind * 2 + running);
		const long at = calls;
		bool caught = false;
		if (running && r.chance(1, 2)) usleep((useconds_t)r.below(300)); // asleep
		try
		{
			e.incrementInputPlace("in" + std::to_string(p));
		}
		catch (...)
		{
			caught = true;
			VH_CHECK(faulty, "unexpected-exception", "incrementInputPlace threw by itself, of " << say());
			const std::string x = differs(kind, id, std::current_exception());
			VH_CHECK(x.empty(), "exception-changed", "the exception thrown by an on-enter action (kind " << kind << ") reached the caller of incrementInputPlace as " << x << " of " << say());
			++thrown;
		}
		armed = false;
		trail += " +" + std::to_string(p) + (caught ? "!" : "");
		VH_CHECK(caught || !faulty, "exception-swallowed", "an on-enter action threw and incrementInputPlace returned normally, of " << say());
		VH_CHECK(calls == at + 1, "wrong-actions", "incrementInputPlace ran " << calls - at << " actions, of " << say());
		++in;
		if (running)
		{
			if (finish || r.chance(2, 3))
			{
				VH_CHECK(vh::await([&] { return e.getNumberOfTokens(P(len - 1)) == in && arrivals >= (long)in; }, 30), "not-quiescent",
						 "the event loop does not use the token of an input " << (caught ? "whose action threw" : "") << " before its sleep duration: " << e.getNumberOfTokens(P(len - 1)) << " of " << in << " arrived, of " << say());
				vh::count("inputs_used_by_the_loop", caught);
			}
		}
		else
		{
			size_t total = 0;
			for (int i = 0; i < ins; ++i) total += e.getNumberOfTokens("in" + std::to_string(i));
			for (int i = 0; i < len; ++i) total += e.getNumberOfTokens(P(i));
			VH_CHECK(total == in, "wrong-marking", total << " tokens after " << in << " inputs, of " << say());
		}
		VH_CHECK(e.isEventLoopRunning() == running, "wrong-state", "isEventLoopRunning() is " << !running << " of " << say());
	}
	e.stop();
	VH_CHECK(e.getNumberOfTokens(P(len - 1)) == in && arrivals == (long)in, "wrong-marking", "of " << say());
	vh::count("exceptions_from_inputs", (uint64_t)thrown);
	vh::count("nets_with_running_inputs");
	return vh::hcomb(h, (uint64_t)thrown);
}
} // namespace

void vh_case(vh::Case &c, Rng &rng)
{
	if (rng.chance(1, 6))
	{
		if (rng.chance(1, 2)) noise::configure(rng.next(), (int)rng.below(5), 20000);
		vh::distinct(loopInputs(rng));
		return;
	}
	const bool readers = rng.chance(1, 8);
	if (readers) noise::configure(rng.next(), (int)rng.below(5), 20000);
	Run r(Rng(rng.next()), c.thorough);
	vh::describe(r.describe());
	const int rounds = rng.chance(1, 10) ? (int)rng.range(30, 120) : (int)rng.range(2, 12);
	const uint64_t h = r.go(rounds, readers);
	vh::count("nets");
	if (r.thrown() > 0)
	{
		vh::distinct(vh::hcomb(h, r.thrown()));
		if (r.thrown() > 3) vh::sample(show(r.net) + " history:" + r.log());
	}
}
