#pragma once
// Sequential model of the public API, compared with the engine after every call.
#include "game.h"
#include <array>
#include <chrono>

namespace api
{
using ptne::ArcProperties;
using ptne::PlaceProperties;
using ptne::PTN_Engine;
using ptne::TransitionProperties;
using game::Mode;
using Type = ArcProperties::Type;
using vh::Rng;

//! User functions with an identity. Called by the engine they count; called under a probe they tell who they are.
struct Funcs
{
	static constexpr int MAX = 4096;
	std::atomic<long> calls[MAX] = {};
	std::atomic<bool> value[MAX] = {};
	static inline thread_local int *probe = nullptr;
	static inline thread_local bool probing = false;

	//! Every other function is too large to be stored within a std::function.
	struct Large
	{
		std::array<long, 8> payload{ 1, 2, 3, 4, 5, 6, 7, 8 };
	};
	ptne::ActionFunction action(int id)
	{
		if (id % 2)
			return [this, id, l = Large()]
			{
				if (l.payload[7] != 8) vh::fail("function", "damaged");
				if (probing)
					*probe = id;
				else
					calls[id].fetch_add(1);
			};
		return [this, id]
		{
			if (probing)
				*probe = id;
			else
				calls[id].fetch_add(1);
		};
	}
	ptne::ConditionFunction condition(int id)
	{
		if (id % 2)
			return [this, id, l = Large()]() -> bool
			{
				if (l.payload[7] != 8) vh::fail("function", "damaged");
				if (probing) *probe = id;
				return value[id].load();
			};
		return [this, id]() -> bool
		{
			if (probing) *probe = id;
			return value[id].load();
		};
	}
	template <class F>
	static int who(const F &f)
	{
		if (!f) return -1;
		int id = -2;
		probe = &id;
		probing = true;
		(void)f();
		probing = false;
		return id;
	}
};

struct MPlace
{
	size_t tokens = 0;
	bool input = false;
	std::string enterName, exitName;
	int enter = -1, exit = -1;
};
using MArcs = std::map<std::string, size_t>; // place -> weight
struct MTrans
{
	MArcs act, dest, inh;
	std::vector<std::string> condNames;
	std::vector<int> conds;
	bool reqNo = false;
};
struct Model
{
	std::map<std::string, MPlace> places;
	std::map<std::string, MTrans> trans;
	std::map<std::string, int> actions, conditions;
	Mode mode = Mode::SINGLE_THREAD;
	bool running = false;
	long sleep = 100;
	std::map<int, long> calls; //!< expected calls of action functions
};

inline std::string quoted(const std::string &s)
{
	std::ostringstream o;
	o << '"';
	for (unsigned char c : s.substr(0, 60))
		if (c < 32 || c == '"') o << "\\x" << std::hex << (int)c << std::dec;
		else o << c;
	o << '"';
	if (s.size() > 60) o << "(" << s.size() << ")";
	return o.str();
}

inline std::string show(const MArcs &a)
{
	std::ostringstream o;
	for (auto &[p, w] : a) o << quoted(p) << ":" << w << " ";
	return o.str();
}

inline bool tokenEnabled(const Model &m, const MTrans &t)
{
	for (auto &[p, w] : t.inh)
		if (m.places.at(p).tokens > 0) return false;
	for (auto &[p, w] : t.act)
		if (m.places.at(p).tokens < w) return false;
	return true;
}

class Api
{
public:
	std::shared_ptr<Funcs> fn;
	Model m;
	std::unique_ptr<PTN_Engine> e;
	int nextId = 0;
	std::string trail; //!< recent calls, for messages
	long rejected = 0, accepted = 0, firings = 0, runs = 0;
	std::function<void(const std::string &, const std::function<void()> &)> around; //!< makes the call instead (faults)
	uint64_t hash = 0;

	explicit Api(Mode mode, std::shared_ptr<Funcs> f = nullptr)
	: fn(f ? f : std::make_shared<Funcs>())
	, e(std::make_unique<PTN_Engine>(mode))
	{
		m.mode = mode;
	}
	~Api()
	{
		if (e && m.running) e->stop();
		settle();
		e.reset();
	}

	void note(const std::string &s)
	{
		trail += s + "; ";
		if (trail.size() > 1500) trail = "..." + trail.substr(trail.size() - 1200);
		hash = vh::hcomb(hash, std::hash<std::string>()(s));
		vh::describe(trail);
		vh::tick();
	}

	//! Makes the call; it must be accepted exactly if ok.
	void call(const std::string &what, bool ok, const std::function<void()> &f)
	{
		note(what + (ok ? "" : " (invalid)"));
		try
		{
			if (around) around(what, f);
			else f();
		}
		catch (const ptne::PTN_Exception &x)
		{
			VH_CHECK(!ok, "valid-call-refused", what << " threw " << quoted(x.what()) << " after: " << trail);
			++rejected;
			return;
		}
		catch (const std::exception &x)
		{
			vh::fail("wrong-exception", what + " threw something that is no PTN_Exception: " + x.what() + " after: " + trail);
		}
		VH_CHECK(ok, "invalid-call-accepted", what << " did not throw, after: " << trail);
		++accepted;
	}

	// ---- validity and effect of each call

	void registerAction(const std::string &name)
	{
		const bool ok = !name.empty() && !m.actions.contains(name);
		const int id = nextId++;
		call("registerAction " + quoted(name), ok, [&] { e->registerAction(name, fn->action(id)); });
		if (ok) m.actions[name] = id;
	}
	void registerCondition(const std::string &name, bool v)
	{
		const bool ok = !name.empty() && !m.conditions.contains(name);
		const int id = nextId++;
		fn->value[id] = v;
		call("registerCondition " + quoted(name), ok, [&] { e->registerCondition(name, fn->condition(id)); });
		if (ok) m.conditions[name] = id;
	}
	//! enterAnon etc.: give an anonymous function (possibly besides a name).
	void createPlace(const std::string &name, size_t tokens, bool input, const std::string &en, const std::string &xn, bool enterAnon, bool exitAnon)
	{
		PlaceProperties p;
		p.name = name;
		p.initialNumberOfTokens = tokens;
		p.input = input;
		p.onEnterActionFunctionName = en;
		p.onExitActionFunctionName = xn;
		MPlace q;
		q.tokens = tokens;
		q.input = input;
		q.enterName = en;
		q.exitName = xn;
		if (enterAnon)
		{
			q.enter = nextId++;
			p.onEnterAction = fn->action(q.enter);
		}
		if (exitAnon)
		{
			q.exit = nextId++;
			p.onExitAction = fn->action(q.exit);
		}
		bool ok = !name.empty() && !m.places.contains(name);
		if (!en.empty())
		{
			ok = ok && m.actions.contains(en);
			if (m.actions.contains(en)) q.enter = m.actions[en];
		}
		if (!xn.empty())
		{
			ok = ok && m.actions.contains(xn);
			if (m.actions.contains(xn)) q.exit = m.actions[xn];
		}
		call("createPlace " + quoted(name) + "=" + std::to_string(tokens) + (en.empty() ? "" : " enter " + quoted(en)) + (xn.empty() ? "" : " exit " + quoted(xn)), ok,
		     [&] { e->createPlace(p); });
		if (ok) m.places[name] = q;
	}
	using ArcList = std::vector<std::pair<std::string, size_t>>;
	void createTransition(const std::string &name, const ArcList &a, const ArcList &d, const ArcList &i, const std::vector<std::string> &names, int anon, bool reqNo, uint64_t anonValues = ~0ull)
	{
		TransitionProperties t;
		t.name = name;
		t.requireNoActionsInExecution = reqNo;
		t.additionalConditionsNames = names;
		MTrans q;
		q.reqNo = reqNo;
		bool ok = !name.empty() && !m.trans.contains(name);
		auto arcs = [&](const ArcList &l, std::vector<ArcProperties> &out, MArcs &mo, Type type)
		{
			for (auto &[p, w] : l)
			{
				out.push_back({ .weight = w, .placeName = p, .transitionName = name, .type = type });
				ok = ok && w > 0 && m.places.contains(p) && !mo.contains(p);
				mo[p] = w;
			}
		};
		arcs(a, t.activationArcs, q.act, Type::ACTIVATION);
		arcs(d, t.destinationArcs, q.dest, Type::DESTINATION);
		arcs(i, t.inhibitorArcs, q.inh, Type::INHIBITOR);
		std::vector<int> anonIds;
		for (int k = 0; k < anon; ++k)
		{
			const int id = nextId++;
			fn->value[id] = k < 64 ? (anonValues >> k) & 1 : true;
			anonIds.push_back(id);
			t.additionalConditions.push_back(fn->condition(id));
		}
		if (!names.empty())
		{
			for (auto &n : names)
			{
				ok = ok && m.conditions.contains(n);
				q.condNames.push_back(n);
				q.conds.push_back(m.conditions.contains(n) ? m.conditions[n] : -1);
			}
		}
		else
		{
			q.conds = anonIds;
			q.condNames.assign(anonIds.size(), "");
		}
		call("createTransition " + quoted(name) + "[" + show(q.act) + ">" + show(q.dest) + "|" + show(q.inh) + "] " + std::to_string(names.size()) + "+" + std::to_string(anon) + " conds" + (reqNo ? " rq" : ""), ok,
		     [&] { e->createTransition(t); });
		if (ok) m.trans[name] = q;
	}
	static std::string typeName(Type t)
	{
		switch (t)
		{
		case Type::ACTIVATION: return "activation";
		case Type::DESTINATION: return "destination";
		case Type::INHIBITOR: return "inhibitor";
		case Type::BIDIRECTIONAL: return "bidirectional";
		}
		return "type" + std::to_string((int)t);
	}
	static bool knownType(Type t)
	{
		return t == Type::ACTIVATION || t == Type::DESTINATION || t == Type::INHIBITOR || t == Type::BIDIRECTIONAL;
	}
	void addArc(const std::string &p, const std::string &t, Type type, size_t w)
	{
		bool ok = !m.running && m.places.contains(p) && m.trans.contains(t) && knownType(type) && (w > 0 || type == Type::ACTIVATION);
		if (ok)
		{
			auto &q = m.trans[t];
			if (type == Type::ACTIVATION || type == Type::BIDIRECTIONAL) ok = ok && !q.act.contains(p);
			if (type == Type::DESTINATION || type == Type::BIDIRECTIONAL) ok = ok && !q.dest.contains(p);
			if (type == Type::INHIBITOR) ok = ok && !q.inh.contains(p);
		}
		call("addArc " + quoted(p) + "," + quoted(t) + "," + typeName(type) + "," + std::to_string(w), ok,
		     [&] { e->addArc({ .weight = w, .placeName = p, .transitionName = t, .type = type }); });
		if (ok)
		{
			auto &q = m.trans[t];
			if (type == Type::ACTIVATION || type == Type::BIDIRECTIONAL) q.act[p] = w;
			if (type == Type::DESTINATION || type == Type::BIDIRECTIONAL) q.dest[p] = w;
			if (type == Type::INHIBITOR) q.inh[p] = w;
		}
	}
	void removeArc(const std::string &p, const std::string &t, Type type, size_t w)
	{
		bool ok = !m.running && m.places.contains(p) && m.trans.contains(t) && knownType(type);
		if (ok)
		{
			auto &q = m.trans[t];
			if (type == Type::ACTIVATION || type == Type::BIDIRECTIONAL) ok = ok && q.act.contains(p);
			if (type == Type::DESTINATION || type == Type::BIDIRECTIONAL) ok = ok && q.dest.contains(p);
			if (type == Type::INHIBITOR) ok = ok && q.inh.contains(p);
		}
		call("removeArc " + quoted(p) + "," + quoted(t) + "," + typeName(type), ok,
		     [&] { e->removeArc({ .weight = w, .placeName = p, .transitionName = t, .type = type }); });
		if (ok)
		{
			auto &q = m.trans[t];
			if (type == Type::ACTIVATION || type == Type::BIDIRECTIONAL) q.act.erase(p);
			if (type == Type::DESTINATION || type == Type::BIDIRECTIONAL) q.dest.erase(p);
			if (type == Type::INHIBITOR) q.inh.erase(p);
		}
	}
	void clearNet()
	{
		const bool ok = !m.running;
		if (ok) settle(); // what happens to pending actions of cleared places is not prescribed
		call("clearNet", ok, [&] { e->clearNet(); });
		if (ok)
		{
			m.places.clear();
			m.trans.clear();
			m_asyncBefore = false;
		}
	}
	void setMode(Mode mode)
	{
		const int v = (int)mode;
		const bool ok = !m.running && v >= 0 && v <= 3;
		call("setActionsThreadOption " + std::to_string(v), ok, [&] { e->setActionsThreadOption(mode); });
		if (ok) m.mode = mode;
	}
	void setSleep(long ms)
	{
		call("setEventLoopSleepDuration " + std::to_string(ms), true, [&] { e->setEventLoopSleepDuration(std::chrono::milliseconds(ms)); });
		m.sleep = ms;
	}
	//! Does not check what firings follow: see increment().
	void incrementRaw(const std::string &p)
	{
		auto it = m.places.find(p);
		const bool ok = it != m.places.end() && it->second.input && it->second.tokens < SIZE_MAX;
		call("increment " + quoted(p), ok, [&] { e->incrementInputPlace(p); });
		if (m.mode != Mode::SINGLE_THREAD) m_asyncBefore = true;
		if (ok)
		{
			++it->second.tokens;
			if (it->second.enter >= 0) ++m.calls[it->second.enter];
		}
	}

	// ---- firing

	bool enabled(const Model &s, const MTrans &t) const
	{
		if (!tokenEnabled(s, t)) return false;
		for (int c : t.conds)
			if (!fn->value[c].load()) return false;
		return true;
	}
	//! Runs the model to its end, if that end and all steps are determined (one enabled transition at a time).
	//! While the engine runs, its arrival there must also be observable: some place tells (m_witness).
	bool simulate(Model &s, long &fired, int maxSteps = 100)
	{
		std::set<std::string> gain, lose;
		bool anyDest = false;
		m_witness.clear();
		if (!simulateInt(s, fired, maxSteps, gain, lose, anyDest)) return false;
		if (fired && s.mode != Mode::SINGLE_THREAD)
		{
			if (!gain.empty()) m_witness = *gain.begin();
			else if (!anyDest && !lose.empty()) m_witness = *lose.begin();
			else return false;
		}
		return true;
	}
	bool simulateInt(Model &s, long &fired, int maxSteps, std::set<std::string> &gain, std::set<std::string> &lose, bool &anyDest) const
	{
		for (int step = 0; step <= maxSteps; ++step)
		{
			const MTrans *one = nullptr;
			for (auto &[n, t] : s.trans)
				if (enabled(s, t))
				{
					if (one) return false;
					one = &t;
				}
			if (!one) return true;
			// places that gain (only in the second half of a firing), or lose, in every firing
			std::set<std::string> g, l;
			for (auto &[p, w] : one->dest)
				if (!one->act.contains(p)) g.insert(p);
			for (auto &[p, w] : one->act)
				if (!one->dest.contains(p) && s.places[p].tokens > 0) l.insert(p);
			if (step)
			{
				std::erase_if(g, [&](auto &p) { return !gain.contains(p); });
				std::erase_if(l, [&](auto &p) { return !lose.contains(p); });
			}
			gain = g;
			lose = l;
			anyDest = anyDest || !one->dest.empty();
			for (auto &[p, w] : one->act)
			{
				auto &q = s.places[p];
				q.tokens = w == 0 ? 0 : q.tokens - w;
				if (q.exit >= 0) ++s.calls[q.exit];
			}
			for (auto &[p, w] : one->dest)
			{
				auto &q = s.places[p];
				if (w > SIZE_MAX - q.tokens) return false;
				q.tokens += w;
				if (q.enter >= 0) ++s.calls[q.enter];
			}
			++fired;
		}
		return false;
	}
	bool dead() const
	{
		for (auto &[n, t] : m.trans)
			if (enabled(m, t)) return false;
		return true;
	}
	bool anyReqNo() const
	{
		for (auto &[n, t] : m.trans)
			if (t.reqNo) return true;
		return false;
	}
	//! Execute, if the result is determined. In the threaded modes the engine is left running.
	bool execute(bool log = false)
	{
		if (m.running)
		{
			std::ostringstream sink;
			call("execute", false, [&] { e->execute(false, sink); });
			return true;
		}
		Model s = m;
		long f = 0;
		// an action of an earlier, asynchronous mode may still be seen as in execution
		if (m.mode == Mode::SINGLE_THREAD && m_asyncBefore && anyReqNo()) return false;
		if (m.mode != Mode::SINGLE_THREAD) m_asyncBefore = true;
		if (!simulate(s, f)) return false;
		if (m.mode != Mode::SINGLE_THREAD && m.sleep > 20) setSleep(1 + (long)(hash % 20));
		s.sleep = m.sleep;
		call("execute", true, [&] { e->execute(log, log ? static_cast<std::ostream &>(sinkStream) : std::cout); });
		s.running = m.mode != Mode::SINGLE_THREAD;
		reach(s, f);
		++runs;
		return true;
	}
	//! Increment: while running, only if what follows is determined.
	bool increment(const std::string &p)
	{
		auto it = m.places.find(p);
		if (!m.running || it == m.places.end() || !it->second.input || it->second.tokens == SIZE_MAX)
		{
			incrementRaw(p);
			return true;
		}
		Model s = m;
		long f = 0;
		++s.places[p].tokens;
		if (s.places[p].enter >= 0) ++s.calls[s.places[p].enter];
		if (!simulate(s, f)) return false;
		if (f && anyReqNo() && m.sleep > 50) return false;
		// the increment itself and what follows
		note("increment " + quoted(p));
		try
		{
			e->incrementInputPlace(p);
		}
		catch (const std::exception &x)
		{
			vh::fail("valid-call-refused", "incrementInputPlace " + quoted(p) + " threw " + x.what() + " after: " + trail);
		}
		++accepted;
		reach(s, f);
		return true;
	}
	void reach(Model &s, long f)
	{
		firings += f;
		const std::string witness = m_witness;
		auto same = [&]
		{
			// the witness first: see simulate()
			if (!witness.empty() && e->getNumberOfTokens(witness) != s.places[witness].tokens) return false;
			for (auto &[n, p] : s.places)
				if (e->getNumberOfTokens(n) != p.tokens) return false;
			return true;
		};
		if (s.running && f)
		{
			if (!vh::await(same, 30))
			{
				std::ostringstream o;
				for (auto &[n, p] : s.places) o << quoted(n) << " is " << e->getNumberOfTokens(n) << " expected " << p.tokens << ", ";
				vh::fail("marking", o.str() + " after: " + trail);
			}
		}
		m = s;
	}
	void stop()
	{
		call("stop", true, [&] { e->stop(); });
		m.running = false;
	}
	//! Every expected action call has happened, and no other.
	void settle()
	{
		auto done = [&]
		{
			for (auto &[id, n] : m.calls)
				if (fn->calls[id].load() < n) return false;
			return true;
		};
		if (!vh::await(done, 30)) vh::fail("actions", "a triggered action has not run for 30 s, after: " + trail);
		for (int i = 0; i < nextId; ++i)
		{
			auto it = m.calls.find(i);
			VH_CHECK(fn->calls[i].load() == (it == m.calls.end() ? 0 : it->second), "actions",
			         "function " << i << " called " << fn->calls[i].load() << " times, expected " << (it == m.calls.end() ? 0 : it->second) << ", after: " << trail);
		}
	}

	// ---- comparison

	void compare(const char *when = "")
	{
		compareWith(*e, m, when);
	}
	void compareWith(const PTN_Engine &eng, const Model &m, const char *when)
	{
		const std::string ctx = std::string(when) + " after: " + trail;
		auto pp = eng.getPlacesProperties();
		std::set<std::string> seen;
		for (auto &p : pp)
		{
			VH_CHECK(seen.insert(p.name).second, "place-twice", quoted(p.name) << ctx);
			auto it = m.places.find(p.name);
			VH_CHECK(it != m.places.end(), "unexpected-place", quoted(p.name) << ctx);
			auto &q = it->second;
			VH_CHECK(p.initialNumberOfTokens == q.tokens, "tokens", quoted(p.name) << " reports " << p.initialNumberOfTokens << ", expected " << q.tokens << ctx);
			VH_CHECK(p.input == q.input, "input-flag", quoted(p.name) << ctx);
			VH_CHECK(p.onEnterActionFunctionName == q.enterName, "action-name", quoted(p.name) << " on enter " << quoted(p.onEnterActionFunctionName) << " expected " << quoted(q.enterName) << ctx);
			VH_CHECK(p.onExitActionFunctionName == q.exitName, "action-name", quoted(p.name) << " on exit " << quoted(p.onExitActionFunctionName) << " expected " << quoted(q.exitName) << ctx);
			const int en = Funcs::who(p.onEnterAction), xn = Funcs::who(p.onExitAction);
			VH_CHECK(en == q.enter, "action-function", quoted(p.name) << " on enter calls " << en << " expected " << q.enter << ctx);
			VH_CHECK(xn == q.exit, "action-function", quoted(p.name) << " on exit calls " << xn << " expected " << q.exit << ctx);
		}
		VH_CHECK(seen.size() == m.places.size(), "place-missing", "reported " << seen.size() << " places, expected " << m.places.size() << ctx);
		for (auto &[n, q] : m.places)
			VH_CHECK(eng.getNumberOfTokens(n) == q.tokens, "tokens", quoted(n) << " has " << eng.getNumberOfTokens(n) << ", expected " << q.tokens << ctx);
		auto tp = eng.getTransitionsProperties();
		seen.clear();
		for (auto &t : tp)
		{
			VH_CHECK(seen.insert(t.name).second, "transition-twice", quoted(t.name) << ctx);
			auto it = m.trans.find(t.name);
			VH_CHECK(it != m.trans.end(), "unexpected-transition", quoted(t.name) << ctx);
			auto &q = it->second;
			auto arcs = [&](const std::vector<ArcProperties> &l, const MArcs &want, Type type, const char *kind)
			{
				MArcs got;
				for (auto &a : l)
				{
					VH_CHECK(got.emplace(a.placeName, a.weight).second, "arc-twice", kind << " arc of " << quoted(t.name) << " and " << quoted(a.placeName) << ctx);
					VH_CHECK(a.type == type, "arc-type", kind << " arc of " << quoted(t.name) << " reported as " << typeName(a.type) << ctx);
					VH_CHECK(a.transitionName == t.name, "arc-transition", quoted(a.transitionName) << " in " << quoted(t.name) << ctx);
				}
				VH_CHECK(got == want, "arcs", kind << " arcs of " << quoted(t.name) << " are " << show(got) << " expected " << show(want) << ctx);
			};
			arcs(t.activationArcs, q.act, Type::ACTIVATION, "activation");
			arcs(t.destinationArcs, q.dest, Type::DESTINATION, "destination");
			arcs(t.inhibitorArcs, q.inh, Type::INHIBITOR, "inhibitor");
			VH_CHECK(t.requireNoActionsInExecution == q.reqNo, "require-no-actions", quoted(t.name) << ctx);
			VH_CHECK(t.additionalConditionsNames == q.condNames, "condition-names", quoted(t.name) << " lists " << t.additionalConditionsNames.size() << " expected " << q.condNames.size() << ctx);
			VH_CHECK(t.additionalConditions.size() == q.conds.size(), "conditions", quoted(t.name) << " has " << t.additionalConditions.size() << " expected " << q.conds.size() << ctx);
			for (size_t i = 0; i < q.conds.size(); ++i)
			{
				const int id = Funcs::who(t.additionalConditions[i]);
				VH_CHECK(id == q.conds[i], "condition-function", quoted(t.name) << " condition " << i << " calls " << id << " expected " << q.conds[i] << ctx);
			}
		}
		VH_CHECK(seen.size() == m.trans.size(), "transition-missing", "reported " << seen.size() << " transitions, expected " << m.trans.size() << ctx);
		VH_CHECK(eng.isEventLoopRunning() == m.running, "running", "isEventLoopRunning() is " << eng.isEventLoopRunning() << ctx);
		VH_CHECK(eng.getActionsThreadOption() == m.mode, "thread-option", (int)eng.getActionsThreadOption() << " expected " << (int)m.mode << ctx);
		VH_CHECK(eng.getEventLoopSleepDuration().count() == m.sleep, "sleep-duration", eng.getEventLoopSleepDuration().count() << " expected " << m.sleep << ctx);
	}

	std::ostringstream sinkStream;
	std::string m_witness;
	bool m_asyncBefore = false;
};

//! Random calls over pools of names, valid and invalid.
struct Fuzzer
{
	Api &a;
	Rng &r;
	std::vector<std::string> places, transitions, actions, conditions;
	int invalidBias = 30; //!< percent of calls meant to be invalid
	size_t bigToken = 0;

	static std::string oddName(Rng &r, const std::string &base)
	{
		switch (r.below(9))
		{
		case 0: return base + " ";
		case 1: return " " + base;
		case 2: return base + std::string(200 + r.below(200), 'n');
		case 3: return "\xC3\xA9\xE2\x82\xAC" + base;
		case 4: return base + "<&\"'>";
		case 5: return base + "\n\t" + base;
		case 6: return base + std::string(1, '\0') + "x";
		case 7: return std::string(1, (char)(1 + r.below(31))) + base;
		default: return base;
		}
	}

	Fuzzer(Api &api, Rng &rng, int size)
	: a(api)
	, r(rng)
	{
		const bool odd = r.chance(1, 3), same = r.chance(1, 4);
		auto pool = [&](std::vector<std::string> &v, const char *pre, int n)
		{
			std::set<std::string> had;
			for (int i = 0; i < n; ++i)
			{
				std::string s = (same ? "N" : pre) + std::to_string(i);
				if (odd) s = oddName(r, s);
				if (had.insert(s).second) v.push_back(s);
			}
		};
		pool(places, "P", 2 + size);
		pool(transitions, "T", 2 + size);
		pool(actions, "A", 2 + size);
		pool(conditions, "C", 2 + size);
	}

	template <class M>
	std::string name(const std::vector<std::string> &pool, const M &existing, bool wantExisting)
	{
		const bool odd = (int)r.below(100) < invalidBias;
		if (odd && r.chance(1, 6)) return "";
		if (odd && r.chance(1, 8)) return pool[r.below(pool.size())] + "?";
		if (odd && r.chance(1, 8))
		{
			// nearly the right name
			std::string s = pool[r.below(pool.size())];
			if (r.chance(1, 2)) s.pop_back();
			else s[r.below(s.size())] ^= 0x20;
			return s;
		}
		const bool want = odd ? !wantExisting : wantExisting;
		for (int i = 0; i < 12; ++i)
		{
			const std::string &s = pool[r.below(pool.size())];
			if (existing.contains(s) == want) return s;
		}
		return pool[r.below(pool.size())];
	}
	size_t weight(bool zeroOk)
	{
		if ((int)r.below(100) < invalidBias && r.chance(1, 4)) return 0;
		if (zeroOk && r.chance(1, 8)) return 0;
		static const size_t w[] = { 1, 1, 1, 2, 3, 255, 256, 65536, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x8000000000000000ull, SIZE_MAX };
		return r.chance(1, 6) ? w[r.below(std::size(w))] : 1 + r.below(3);
	}
	Api::ArcList arcs(int maxN, bool mayRepeat)
	{
		Api::ArcList l;
		std::set<std::string> had;
		for (int i = (int)r.below(maxN + 1); i > 0; --i)
		{
			auto p = name(places, a.m.places, true);
			if (!had.insert(p).second && !mayRepeat) continue;
			l.push_back({ p, weight(false) });
		}
		return l;
	}
	Type type()
	{
		static const Type t[] = { Type::ACTIVATION, Type::DESTINATION, Type::INHIBITOR, Type::BIDIRECTIONAL };
		if ((int)r.below(100) < invalidBias && r.chance(1, 8)) return (Type)r.range(4, 99);
		return t[r.below(4)];
	}
	//! Stopped: prepares one transition to be the only enabled one, and runs.
	void tryFire()
	{
		if (a.m.running || a.m.trans.empty()) return;
		auto it = std::next(a.m.trans.begin(), (long)r.below(a.m.trans.size()));
		for (auto &[n, t] : a.m.trans)
			if (!t.conds.empty() && &t != &it->second) a.fn->value[t.conds[r.below(t.conds.size())]] = false;
		for (int c : it->second.conds) a.fn->value[c] = true;
		for (auto &[p, w] : it->second.act)
		{
			auto &q = a.m.places[p];
			for (int k = 0; k < 5 && q.input && q.tokens < w && q.tokens < SIZE_MAX; ++k) a.increment(p);
		}
		a.execute();
	}
	//! One random call.
	void step()
	{
		const bool bad = (int)r.below(100) < invalidBias;
		switch (r.below(22))
		{
		case 0:
		case 1: a.registerAction(name(actions, a.m.actions, false)); break;
		case 2:
		case 3: a.registerCondition(name(conditions, a.m.conditions, false), r.chance(2, 3)); break;
		case 4:
		case 5:
		case 6:
		{
			static const size_t toks[] = { 0, 1, 2, 3, 0xffffffffull, 0x100000000ull, SIZE_MAX - 1, SIZE_MAX };
			const std::string en = r.chance(1, 2) ? name(actions, a.m.actions, true) : "", xn = r.chance(1, 2) ? name(actions, a.m.actions, true) : "";
			a.createPlace(name(places, a.m.places, false), toks[r.below(r.chance(1, 5) ? 8 : 3)], r.chance(1, 2), en, xn, r.chance(1, 3), r.chance(1, 3));
			break;
		}
		case 7:
		case 8:
		case 9: transition(bad); break;
		case 10:
		case 11:
		case 12:
		{
			const auto p = name(places, a.m.places, true), t = name(transitions, a.m.trans, true);
			const Type ty = type();
			a.addArc(p, t, ty, weight(ty == Type::ACTIVATION));
			break;
		}
		case 13:
		case 14:
		{
			if (bad || a.m.trans.empty() || r.chance(1, 5))
			{
				a.removeArc(name(places, a.m.places, true), name(transitions, a.m.trans, true), type(), 1 + r.below(2));
				break;
			}
			auto it = std::next(a.m.trans.begin(), (long)r.below(a.m.trans.size()));
			auto &q = it->second;
			const Type ty = type();
			auto &l = ty == Type::DESTINATION ? q.dest : ty == Type::INHIBITOR ? q.inh : q.act;
			if (l.empty()) break;
			auto ai = std::next(l.begin(), (long)r.below(l.size()));
			const std::string pn = ai->first, tn = it->first;
			a.removeArc(pn, tn, ty, r.chance(1, 2) ? ai->second : 1);
			break;
		}
		case 15:
			if (r.chance(1, a.m.running ? 2 : 12)) a.clearNet();
			break;
		case 16:
			a.setMode(bad && r.chance(1, 4) ? (Mode)r.range(4, 1000) : (Mode)r.below(4));
			break;
		case 17:
		{
			static const long d[] = { 1, 2, 5, 17, 100, 999, 3600000, 86400000, 9223372036855, 0x7fffffffffffffff };
			a.setSleep(d[r.below(std::size(d))]);
			break;
		}
		case 18:
		case 19:
		{
			std::string p = name(places, a.m.places, true);
			for (auto &[n, q] : a.m.places)
				if (q.input && r.chance(1, 3) && !bad) p = n;
			a.increment(p);
			break;
		}
		case 20:
			if (!bad) tryFire();
			else if (!a.execute())
			{
				// not determined: conditions decide
				for (auto &[n, id] : a.m.conditions) a.fn->value[id] = r.chance(1, 2);
			}
			break;
		case 21:
			if (a.m.running ? r.chance(1, 2) : r.chance(1, 6)) a.stop();
			break;
		}
	}
	void transition(bool bad)
	{
		auto A = arcs(3, bad), D = arcs(3, bad), I = arcs(r.chance(1, 2) ? 2 : 0, bad);
		std::vector<std::string> names;
		if (r.chance(1, 2))
			for (int k = (int)r.below(5); k > 0; --k)
			{
				auto n = name(conditions, a.m.conditions, true);
				if (!std::ranges::count(names, n) || r.chance(1, 3)) names.push_back(n); // a name may be listed twice
			}
		const int anon = r.chance(1, 3) ? (int)r.below(4) : 0;
		// while running a new transition must not be enabled: its first anonymous condition stays false
		uint64_t values = r.next();
		const std::string n = name(transitions, a.m.trans, false);
		if (a.m.running || (A.empty() && I.empty()))
		{
			names.clear();
			values &= ~1ull;
			a.createTransition(n, A, D, I, names, anon + 1, r.chance(1, 4), values);
		}
		else
			a.createTransition(n, A, D, I, names, anon, r.chance(1, 4), values);
	}
};
} // namespace api
