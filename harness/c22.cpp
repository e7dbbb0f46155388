// C22: the execution log is a faithful trace.
#include "game.h"
#include <algorithm>
#include <array>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

const char *vh_property = "C22";
using namespace game;
using vh::Rng;

namespace
{
using Snapshot = std::map<std::string, size_t>;

//! Splits a log into its snapshots. Names contain no line breaks.
std::vector<Snapshot> parse(const std::string &text, const std::string &what)
{
	std::vector<Snapshot> v;
	size_t at = 0;
	auto line = [&](std::string &l)
	{
		if (at >= text.size()) return false;
		const size_t e = text.find('\n', at);
		VH_CHECK(e != std::string::npos, "bad-log", what << ": the log ends within a line: '" << text.substr(at, 100) << "'");
		l = text.substr(at, e - at);
		at = e + 1;
		return true;
	};
	std::string l;
	while (line(l))
	{
		VH_CHECK(l == "Place; Tokens", "bad-log", what << ": a snapshot begins with '" << l.substr(0, 100) << "'");
		Snapshot s;
		for (;;)
		{
			VH_CHECK(line(l), "bad-log", what << ": the log ends within a snapshot");
			if (l.empty()) break;
			const size_t p = l.rfind(": ");
			VH_CHECK(p != std::string::npos && p + 2 < l.size() && l.find_first_not_of("0123456789", p + 2) == std::string::npos, "bad-log", what << ": line '" << l.substr(0, 200) << "'");
			const std::string num = l.substr(p + 2);
			const size_t n = std::stoull(num);
			VH_CHECK(std::to_string(n) == num, "bad-log", what << ": number '" << num << "'");
			VH_CHECK(s.emplace(l.substr(0, p), n).second, "bad-log", what << ": place '" << l.substr(0, p) << "' appears twice in a snapshot");
		}
		VH_CHECK(line(l) && l.empty(), "bad-log", what << ": a snapshot does not end with two empty lines");
		v.push_back(std::move(s));
	}
	return v;
}

class Run
{
public:
	Run(Rng r, bool thorough)
	: m_r(r)
	{
		m_mode = m_r.chance(1, 3) ? Mode::SINGLE_THREAD : m_r.chance(1, 3) ? Mode::EVENT_LOOP : m_r.chance(1, 2) ? Mode::JOB_QUEUE : Mode::DETACHED;
		GenOpts o;
		o.markers = true;
		o.resets = m_mode == Mode::SINGLE_THREAD;
		o.inhibitInputs = m_mode == Mode::SINGLE_THREAD;
		o.reqNo = true;
		if (m_r.chance(1, 12))
		{
			o.minP = 20;
			o.maxP = thorough ? 300 : 120;
			o.maxT = 30;
		}
		Gen g = randomNet(m_r, o);
		net = g.net;
		nPlain = g.nPlain;
		PlaceS f;
		f.name = "fuel";
		f.init = (size_t)m_r.range(4, 60);
		f.enter = f.exit = false;
		net.P.push_back(f);
		fuel = (int)net.P.size() - 1;
		for (auto &t : net.T) t.act.insert(t.act.begin() + (long)m_r.below(t.act.size() + 1), ArcS{ fuel, 1 });
		for (int i = 0; i < nPlain; ++i)
			if (net.P[i].input) inputs.push_back(i);
		for (int i = 0; i < o.numGuards; ++i) m_guards[i] = m_r.chance(4, 5);
		engine = std::make_unique<PTN_Engine>(m_mode);
		engine->setEventLoopSleepDuration(std::chrono::milliseconds(m_r.chance(1, 20) ? 20 : 1));
		Callbacks cb;
		cb.enter = [this](int) -> ptne::ActionFunction { return [n = m_actions] { ++*n; }; }; // (a detached action may outlive the run)
		cb.exit = cb.enter;
		cb.guard = [this](int t, int k) -> ptne::ConditionFunction { return [this, g = net.T[t].guards[k]] { return m_guards[g].load(); }; };
		game::build(*engine, net, cb, &m_r);
		// evaluated once in every pass
		engine->createPlace({ .name = "sentinel place", .initialNumberOfTokens = 1 });
		engine->createTransition({ .name = "sentinel", .activationArcs = { { .placeName = "sentinel place" } }, .additionalConditions = { [this]
																																		  {
																																			  passes.add();
																																			  return false;
																																		  } } });
		m_extra["sentinel place"] = 1;
		marking = initial(net);
	}
	~Run()
	{
		vh::describe(describe());
		engine.reset();
	}

	std::string describe() const { return std::string(modeName(m_mode)) + " " + game::show(net) + " M" + game::show(marking) + " history:" + m_log; }

	void go(int runs, bool producers, bool create)
	{
		for (int i = 0; i < runs; ++i)
		{
			vh::tick();
			vh::describe(describe());
			for (auto &g : m_guards) g = m_r.chance(4, 5);
			for (int k = (int)m_r.below(4); k > 0; --k) increment();
			const int what = (int)m_r.below(6);
			if (what == 0) run(nullptr, false, producers, create);           // not logged
			else if (what == 1) run(&std::cout, true, producers, create);    // the default stream
			else if (what == 2) run(nullptr, true, producers, create);       // not logged, stream given
			else run(&newStream(), true, producers, create);
			if (m_mode != Mode::SINGLE_THREAD && m_r.chance(1, 6))
			{
				static const Mode ms[] = { Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
				m_mode = ms[m_r.below(3)];
				engine->setActionsThreadOption(m_mode);
				m_log += std::string(" to ") + modeName(m_mode);
			}
			if (m_r.chance(1, 4)) printed();
		}
		vh::count("snapshots", m_snapshots);
		vh::count("firings_explained", m_firings);
		vh::count("inputs_explained", m_inputs);
		vh::count("runs_logged", m_logged);
		vh::count("runs_not_logged", m_notLogged);
	}

	uint64_t hash() const { return m_hash; }
	long snapshots() const { return m_snapshots; }
	long firings() const { return m_firings; }

	NetS net;

private:
	std::ostringstream &newStream()
	{
		m_streams.emplace_back();
		m_expected.emplace_back();
		return m_streams.back();
	}

	void increment()
	{
		if (inputs.empty()) return;
		const int p = m_r.pick(inputs);
		if (marking[p] > SIZE_MAX - 1000) return;
		engine->incrementInputPlace(net.P[p].name);
		++marking[p];
	}

	Snapshot snapshotOf(const Marking &m) const
	{
		Snapshot s = m_extra;
		for (size_t i = 0; i < net.P.size(); ++i) s[net.P[i].name] = m[i];
		return s;
	}

	std::string diff(const Snapshot &a, const Snapshot &b) const
	{
		std::string s;
		for (auto &[n, t] : a)
		{
			auto it = b.find(n);
			if (it == b.end()) s += " '" + n + "' missing";
			else if (it->second != t) s += " '" + n + "' " + std::to_string(t) + "/" + std::to_string(it->second);
		}
		for (auto &[n, t] : b)
			if (!a.count(n)) s += " '" + n + "' extra";
		return s.substr(0, 600);
	}

	Marking toMarking(const Snapshot &s, size_t index, const Snapshot &mayBe)
	{
		Marking m;
		for (auto &p : net.P)
		{
			auto it = s.find(p.name);
			VH_CHECK(it != s.end(), "incomplete-snapshot", "snapshot " << index << " lacks place '" << p.name << "' of " << describe());
			m.push_back(it->second);
		}
		for (auto &[n, t] : m_extra)
		{
			auto it = s.find(n);
			VH_CHECK(it != s.end() && it->second == t, "incomplete-snapshot", "snapshot " << index << " lacks place '" << n << "', or gives it other tokens, of " << describe());
		}
		for (auto &[n, t] : s)
		{
			if (m_extra.count(n) || mayBe.count(n)) continue;
			bool known = false;
			for (auto &p : net.P) known |= p.name == n;
			VH_CHECK(known, "wrong-snapshot", "snapshot " << index << " names '" << n << "', which is no place of " << describe());
		}
		return m;
	}

	//! Can the transitions of `todo` fire, each once, one after the other, from m, and lead to b?
	bool order(const Marking &m, const std::vector<int> &todo, const Marking &b)
	{
		m_capped = false;
		if (todo.empty()) return m == b;
		std::set<std::pair<std::vector<bool>, Marking>> seen; // (reset arcs: the order matters to the marking)
		std::function<bool(const Marking &, std::vector<bool>)> rec = [&](const Marking &x, std::vector<bool> done)
		{
			if (std::all_of(done.begin(), done.end(), [](bool b) { return b; }))
				return x == b;
			if (!seen.insert({ done, x }).second || seen.size() > 20000) return false;
			for (size_t i = 0; i < todo.size(); ++i)
			{
				if (done[i] || !tokenEnabled(net.T[todo[i]], x)) continue;
				Marking y = x;
				if (!fire(net.T[todo[i]], y)) continue;
				auto d = done;
				d[i] = true;
				if (rec(y, d)) return true;
			}
			return false;
		};
		const bool ok = rec(m, std::vector<bool>(todo.size(), false));
		m_capped = seen.size() > 20000;
		return ok;
	}

	//! From one snapshot to the next: firings, each transition at most once, and inputs.
	void step(const Marking &a, const Marking &b, size_t index, bool inputsAllowed, Marking &added)
	{
		std::vector<int> fired;
		Marking base = a;
		for (size_t t = 0; t < net.T.size(); ++t)
		{
			const int mk = nPlain + (int)t;
			VH_CHECK(b[mk] >= a[mk] && b[mk] - a[mk] <= 1, "unexplained-step", "between snapshots " << index - 1 << " and " << index << " " << net.T[t].name << " fired " << (long)(b[mk] - a[mk]) << " times, of " << describe());
			if (b[mk] != a[mk]) fired.push_back((int)t);
			if (b[mk] != a[mk])
				for (int g : net.T[t].guards)
					VH_CHECK(m_guards[g], "unexplained-step", "between snapshots " << index - 1 << " and " << index << " " << net.T[t].name << " fired although a condition is false, of " << describe());
		}
		// the state equation gives the inputs (with reset arcs, there are none)
		bool resets = false;
		for (int t : fired)
			for (auto &x : net.T[t].act) resets |= x.w == 0;
		if (!resets)
		{
			Marking flow = a;
			for (int t : fired)
			{
				for (auto &x : net.T[t].act) flow[x.place] -= x.w;
				for (auto &x : net.T[t].dest) flow[x.place] += x.w;
			}
			for (size_t i = 0; i < b.size(); ++i)
			{
				const size_t d = b[i] - flow[i];
				VH_CHECK(d == 0 || (inputsAllowed && net.P[i].input && (int)i < nPlain && d < 1000000), "unexplained-step",
						 "between snapshots " << index - 1 << " and " << index << " place '" << net.P[i].name << "' went from " << a[i] << " to " << b[i] << ", which the firings do not explain, of " << describe());
				base[i] += d;
				added[i] += d;
				m_inputs += (long)d;
			}
		}
		const bool ok = order(base, fired, b);
		if (!ok && m_capped)
			vh::count("inconclusive");
		else
		{
			std::string names;
			for (int t : fired) names += " " + net.T[t].name;
			VH_CHECK(ok, "unexplained-step", "between snapshots " << index - 1 << " and " << index << " fired" << names << ", which is not possible in any order from " << game::show(base) << " to " << game::show(b) << " of " << describe());
		}
		m_firings += (long)fired.size();
		m_hash = vh::hcomb(m_hash, fired.size());
		for (int t : fired) m_hash = vh::hcomb(m_hash, t);
	}

	//! What every stream holds that is not being logged to.
	void others(const std::ostream *current)
	{
		for (size_t i = 0; i < m_streams.size(); ++i)
			if (&m_streams[i] != current)
				VH_CHECK(m_streams[i].str() == m_expected[i], "wrong-stream", "a stream that is not logged to (any more) was written to: '" << m_streams[i].str().substr(0, 300) << "', of " << describe());
		if (current != &std::cout)
		{
			std::cout.flush();
			fflush(stdout);
			struct stat st;
			VH_CHECK(fstat(1, &st) == 0 && st.st_size == 0, "wrong-stream", "standard output was written to (" << st.st_size << " bytes), of " << describe());
		}
		VH_CHECK(m_clog.str().empty(), "wrong-stream", "std::clog was written to, of " << describe());
	}

	void run(std::ostream *to, bool flag, bool producers, bool create)
	{
		const Marking m0 = marking;
		std::ostringstream given;
		const long p0 = passes.value();
		std::streambuf *clog = std::clog.rdbuf(m_clog.rdbuf());
		if (to == &std::cout) engine->execute(true);
		else if (to) engine->execute(true, *to);
		else if (flag) engine->execute(false, given);
		else engine->execute();
		m_log += to == &std::cout ? " run(cout)" : to ? " run(log)" : " run";
		Snapshot mayBe;
		Marking accepted(net.P.size(), 0);
		bool concurrent = false;
		if (m_mode != Mode::SINGLE_THREAD)
		{
			std::vector<std::thread> th;
			std::vector<std::vector<size_t>> acc;
			if (producers && !inputs.empty() && m_r.chance(2, 3))
			{
				concurrent = true;
				const int n = (int)m_r.range(1, 3);
				acc.assign(n, std::vector<size_t>(net.P.size(), 0));
				for (int i = 0; i < n; ++i)
					th.emplace_back([&, i, r = Rng(m_r.next()), cnt = (int)m_r.range(1, 20)]() mutable {
						for (int k = 0; k < cnt; ++k)
						{
							const int p = inputs[r.below(inputs.size())];
							if (m0[p] > SIZE_MAX / 2) continue;
							engine->incrementInputPlace(net.P[p].name);
							++acc[i][p];
							if (r.chance(1, 2)) usleep((useconds_t)r.below(150));
						}
					});
			}
			if (create && m_r.chance(1, 2))
			{
				const std::string n = "new " + std::to_string(m_created++);
				const size_t tokens = m_r.below(1000);
				mayBe[n] = tokens;
				engine->createPlace({ .name = n, .initialNumberOfTokens = tokens });
			}
			for (auto &t : th) t.join();
			for (auto &a : acc)
				for (size_t i = 0; i < a.size(); ++i) accepted[i] += a[i];
			// at rest
			for (;;)
			{
				const Marking m1 = observe(*engine, net);
				const long p = passes.value();
				passes.waitFor(p + 3);
				if (m1 != observe(*engine, net)) continue;
				const long a = *m_actions;
				passes.waitFor(passes.value() + 3);
				if (a == *m_actions && m1 == observe(*engine, net)) break;
			}
			engine->stop();
		}
		std::clog.rdbuf(clog);
		const Marking now = observe(*engine, net);
		const long evaluated = passes.value() - p0;
		VH_CHECK(given.str().empty(), "wrong-stream", "execute(false, stream) wrote '" << given.str().substr(0, 300) << "', of " << describe());
		std::string text;
		if (to == &std::cout)
		{
			std::cout.flush();
			fflush(stdout);
			struct stat st;
			fstat(1, &st);
			text.resize((size_t)st.st_size);
			VH_CHECK(pread(1, text.data(), text.size(), 0) == (ssize_t)text.size(), "wrong-stream", "cannot read standard output back");
			if (ftruncate(1, 0) != 0) vh::error("ftruncate");
			lseek(1, 0, SEEK_SET);
			vh::count("runs_logged_to_cout");
		}
		else if (to)
		{
			text = m_streams.back().str();
			m_expected.back() = text;
		}
		others(nullptr);
		marking = now;
		if (!to)
		{
			++m_notLogged;
			for (auto &[n, t] : mayBe) m_extra[n] = t;
			return;
		}
		++m_logged;
		const auto log = parse(text, describe());
		VH_CHECK(!log.empty(), "missing-snapshot", "a logged run left an empty log, of " << describe());
		VH_CHECK((long)log.size() == evaluated, "missing-snapshot", "the log has " << log.size() << " snapshots for " << evaluated << " evaluation passes, of " << describe());
		m_snapshots += (long)log.size();
		std::vector<Marking> ms;
		for (size_t i = 0; i < log.size(); ++i) ms.push_back(toMarking(log[i], i, mayBe));
		// places created during the run: once named, always named
		for (auto &[n, t] : mayBe)
		{
			bool seen = false;
			for (size_t i = 0; i < log.size(); ++i)
			{
				auto it = log[i].find(n);
				VH_CHECK(it != log[i].end() || !seen, "incomplete-snapshot", "snapshot " << i << " lacks the new place '" << n << "' of " << describe());
				if (it != log[i].end())
				{
					VH_CHECK(it->second == t, "wrong-snapshot", "snapshot " << i << " gives the new place '" << n << "' " << it->second << " tokens instead of " << t << ", of " << describe());
					seen = true;
				}
			}
			VH_CHECK(seen, "incomplete-snapshot", "no snapshot names the new place '" << n << "' of " << describe());
			vh::count("places_created_while_logging");
			m_extra[n] = t;
		}
		Marking added(net.P.size(), 0);
		if (!concurrent)
			VH_CHECK(ms[0] == m0, "wrong-snapshot", "the first snapshot is not the marking at execute():" << diff(snapshotOf(m0), log[0]) << " of " << describe());
		else
			step(m0, ms[0], 0, true, added);
		for (size_t i = 1; i < ms.size(); ++i) step(ms[i - 1], ms[i], i, concurrent, added);
		VH_CHECK(ms.back() == now, "wrong-snapshot", "the last snapshot of a run that came to rest is not the final marking " << game::show(now) << ":" << diff(snapshotOf(now), log.back()) << " of " << describe());
		VH_CHECK(added == accepted, "unexplained-step", "the log accounts for other inputs than those made, of " << describe());
		if (m_mode == Mode::SINGLE_THREAD && ms.size() > 1)
		{
			// every pass but the last fires
			for (size_t i = 1; i < ms.size(); ++i)
				VH_CHECK(ms[i] != ms[i - 1], "wrong-snapshot", "snapshots " << i - 1 << " and " << i << " are the same, of " << describe());
		}
		vh::count(std::string("runs_logged_") + modeName(m_mode));
	}

	//! printState: same format.
	void printed()
	{
		std::ostringstream o;
		engine->printState(o);
		const auto log = parse(o.str(), "printState of " + describe());
		VH_CHECK(log.size() == 1, "bad-log", "printState wrote " << log.size() << " snapshots, of " << describe());
		VH_CHECK(log[0] == snapshotOf(marking), "wrong-snapshot", "printState:" << diff(snapshotOf(marking), log[0]) << " of " << describe());
		others(nullptr);
		vh::count("states_printed");
	}

	Rng m_r;
	Mode m_mode = Mode::SINGLE_THREAD;
	int nPlain = 0, fuel = 0, m_created = 0;
	std::vector<int> inputs;
	std::array<std::atomic<bool>, 6> m_guards{};
	std::shared_ptr<std::atomic<long>> m_actions = std::make_shared<std::atomic<long>>(0);
	Marking marking;
	Snapshot m_extra;
	std::deque<std::ostringstream> m_streams;
	std::deque<std::string> m_expected;
	std::ostringstream m_clog;
	std::string m_log;
	long m_snapshots = 0, m_firings = 0, m_inputs = 0, m_logged = 0, m_notLogged = 0;
	uint64_t m_hash = 1;
	bool m_capped = false;
	vh::Gate passes;
	std::unique_ptr<PTN_Engine> engine;
};
} // namespace

void vh_case(vh::Case &c, Rng &rng)
{
	static bool redirected = false;
	if (!redirected)
	{
		const int fd = open((c.tmp + "/stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
		if (fd < 0 || dup2(fd, 1) != 1) vh::error("cannot redirect standard output");
		close(fd);
		redirected = true;
	}
	if (rng.chance(1, 2)) noise::configure(rng.next(), (int)rng.below(5), 20000);
	uint64_t h;
	{
		Run r(Rng(rng.next()), c.thorough);
		r.go((int)rng.range(1, 6), rng.chance(1, 2), rng.chance(1, 3));
		h = r.hash();
		if (r.firings() > 0) vh::distinct(vh::hcomb(h, hashNet(r.net)));
		if (r.firings() > 5) vh::sample(std::to_string(r.snapshots()) + " snapshots, " + std::to_string(r.firings()) + " firings explained, of " + r.describe());
	}
}
