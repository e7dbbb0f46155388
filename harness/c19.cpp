// C19: conflicts are resolved at random, without bias.
#include "game.h"
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

const char *vh_property = "C19";
using namespace game;
using vh::Rng;
extern char **environ;

namespace
{
//! Standard normal deviate equivalent to a chi-square value (Wilson and Hilferty).
double deviate(double chi2, double df)
{
	return (std::cbrt(chi2 / df) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df));
}
constexpr double LIMIT = 7.5; // p < 1e-13 per test

double g_worst = 0;

void judge(double z, const std::string &what)
{
	g_worst = std::max(g_worst, z);
	vh::count("statistical_tests");
	if (z > LIMIT) vh::fail("biased", what + ": deviates by " + std::to_string(z) + " standard deviations");
}

std::string show(const std::vector<long> &v)
{
	std::string s;
	for (size_t i = 0; i < v.size() && i < 40; ++i) s += " " + std::to_string(v[i]);
	return s;
}

void uniform(const std::vector<long> &obs, const std::string &what, double scale = 1)
{
	if (obs.size() < 2) return;
	double n = 0;
	for (long o : obs) n += (double)o;
	const double e = n / (double)obs.size();
	if (e < 30) return;
	double x = 0;
	for (long o : obs) x += ((double)o - e) * ((double)o - e) / e;
	judge(deviate(x * scale, (double)obs.size() - 1), what + " are not equally likely:" + show(obs));
}

//! Are a[i] and b[i] independent, both uniform over k?
void independent(const std::vector<int> &a, const std::vector<int> &b, int k, const std::string &what)
{
	// group the values so that every cell is expected to be hit 30 times
	int g = k;
	while (g > 2 && (double)a.size() / ((double)g * g) < 30) g = (g + 1) / 2;
	if ((double)a.size() / ((double)g * g) < 30) return;
	for (int variant = 0; variant < 2; ++variant)
	{
		auto grp = [&](int v) { return variant == 0 ? v % g : (int)((long)v * g / k); };
		std::vector<std::vector<double>> c(g, std::vector<double>(g, 0));
		std::vector<double> r(g, 0), s(g, 0);
		for (size_t i = 0; i < a.size(); ++i)
		{
			++c[grp(a[i])][grp(b[i])];
			++r[grp(a[i])];
			++s[grp(b[i])];
		}
		double x = 0;
		for (int i = 0; i < g; ++i)
			for (int j = 0; j < g; ++j)
			{
				const double e = r[i] * s[j] / (double)a.size();
				if (e > 0) x += (c[i][j] - e) * (c[i][j] - e) / e;
			}
		judge(deviate(x, (double)(g - 1) * (g - 1)), what + " are not independent (table of " + std::to_string(g) + "x" + std::to_string(g) + ", first row " + show(std::vector<long>(c[0].begin(), c[0].end())) + ")");
		if (g == k) break;
	}
}

//! The sequence of choices of one engine.
void sequence(const std::vector<int> &s, int k, const std::string &what, int block = 0)
{
	std::vector<long> f(k, 0);
	for (int v : s) ++f[v];
	uniform(f, what + ": the " + std::to_string(k) + " competitors");
	for (int lag : { 1, 2, 3, 7, block })
	{
		if (lag <= 0 || s.size() < (size_t)lag * 4) continue;
		std::vector<int> a(s.begin(), s.end() - lag), b(s.begin() + lag, s.end());
		independent(a, b, k, what + ": choices " + std::to_string(lag) + " rounds apart");
	}
}

//! Choices made by different engines at the same time: as often equal as chance has it.
void differ(const std::vector<int> &a, const std::vector<int> &b, int k, const std::string &what)
{
	double eq = 0;
	const double n = (double)std::min(a.size(), b.size());
	for (size_t i = 0; i < (size_t)n; ++i) eq += a[i] == b[i];
	const double e = n / k;
	// exact enough for n/k >= 60
	judge(std::fabs(eq - e) / std::sqrt(e * (1 - 1.0 / k)), what + " agree in " + std::to_string((long)eq) + " of " + std::to_string((long)n) + " choices among " + std::to_string(k));
}

struct Conflict
{
	int k = 2;
	std::vector<std::string> winners; //!< output place of each competitor
	std::vector<std::string> inputs;  //!< to be incremented for a round
	std::vector<size_t> seen;
};

//! One conflict of k transitions in the engine, its transitions described, not yet created.
Conflict conflict(PTN_Engine &e, Rng &r, const std::string &tag, int k, std::vector<ptne::TransitionProperties> &ts, bool plain, std::vector<int> *sink, int sinkMul)
{
	Conflict c;
	c.k = k;
	c.seen.assign(k, 0);
	const int style = plain ? 0 : (int)r.below(5);
	const std::string in = tag + " in";
	e.createPlace({ .name = in, .input = true });
	c.inputs = { in };
	const bool two = !plain && r.chance(1, 4);
	if (two)
	{
		e.createPlace({ .name = in + "2", .input = true });
		c.inputs.push_back(in + "2");
	}
	bool catalyst = !plain && r.chance(1, 4);
	if (catalyst) e.createPlace({ .name = tag + " catalyst", .initialNumberOfTokens = 1 });
	if (!plain) e.createPlace({ .name = tag + " never" });
	for (int i = 0; i < k; ++i)
	{
		const std::string out = makeName(r, (tag + " out").c_str(), i, style);
		ptne::PlaceProperties p{ .name = out };
		if (sink) p.onEnterAction = [sink, i, sinkMul] { sink->push_back(i * sinkMul); };
		e.createPlace(p);
		c.winners.push_back(out);
		ptne::TransitionProperties t;
		t.name = makeName(r, (tag + " T").c_str(), i, style);
		t.activationArcs = { { .placeName = in } };
		if (two) t.activationArcs.insert(t.activationArcs.begin() + (long)r.below(2), { .placeName = in + "2" });
		t.destinationArcs = { { .placeName = out } };
		if (!plain)
		{
			// differences that do not matter
			if (catalyst && r.chance(1, 2))
			{
				t.activationArcs.push_back({ .placeName = tag + " catalyst" });
				t.destinationArcs.push_back({ .placeName = tag + " catalyst" });
			}
			if (r.chance(1, 4)) t.inhibitorArcs = { { .placeName = tag + " never" } };
			for (int n = (int)r.below(4); n > 1; --n) t.additionalConditions.push_back([] { return true; });
			t.requireNoActionsInExecution = r.chance(1, 5);
		}
		ts.push_back(t);
	}
	return c;
}

//! Others enabled in the same pass, which compete with nobody.
std::vector<std::string> bystanders(PTN_Engine &e, int n, std::vector<ptne::TransitionProperties> &ts)
{
	std::vector<std::string> in;
	for (int i = 0; i < n; ++i)
	{
		const std::string p = "bystander " + std::to_string(i);
		e.createPlace({ .name = p, .input = true });
		ts.push_back({ .name = p, .activationArcs = { { .placeName = p } } });
		in.push_back(p);
	}
	return in;
}

void create(PTN_Engine &e, Rng &r, std::vector<ptne::TransitionProperties> ts, bool keepOrder)
{
	if (!keepOrder) r.shuffle(ts);
	for (auto &t : ts) e.createTransition(t);
}

int chosen(const PTN_Engine &e, Conflict &c)
{
	int w = -1;
	for (int i = 0; i < c.k; ++i)
	{
		const size_t n = e.getNumberOfTokens(c.winners[i]);
		if (n != c.seen[i])
		{
			VH_CHECK(n == c.seen[i] + 1 && w < 0, "not-one-winner", "one round of a conflict over one token had several winners");
			c.seen[i] = n;
			w = i;
		}
	}
	VH_CHECK(w >= 0, "no-winner", "a round of a conflict had no winner");
	return w;
}

//! One conflict (and bystanders), each round a run of its own.
void rounds(Rng &r, int k, long n, bool plain)
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	std::vector<ptne::TransitionProperties> ts;
	std::vector<int> s;
	Conflict c = conflict(e, r, "c", k, ts, plain, &s, 1);
	const int by = plain ? 0 : (int)r.below(6);
	auto bys = bystanders(e, by, ts);
	create(e, r, ts, plain && r.chance(1, 2));
	for (long i = 0; i < n; ++i)
	{
		for (auto &p : c.inputs) e.incrementInputPlace(p);
		for (auto &p : bys) e.incrementInputPlace(p);
		e.execute();
		VH_CHECK((long)s.size() == i + 1, "not-one-winner", "one round of a conflict over one token had " << s.size() - i << " winners");
		if (i % 256 == 0) vh::tick();
	}
	sequence(s, k, std::to_string(k) + " competitors, " + std::to_string(by) + " bystanders, " + std::to_string(n) + " rounds");
	vh::count("rounds", n);
	vh::count(k > 64 ? "rounds_with_many_competitors" : "rounds_with_few_competitors", n);
}

//! Many rounds within each run.
void cycles(Rng &r, Mode mode, int k, long n)
{
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(std::chrono::hours(1));
	const int block = (int)r.range(2, 24);
	std::vector<int> s; // written by one thread at a time
	std::atomic<long> seen{ 0 };
	e.createPlace({ .name = "in", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "fuel", .input = true });
	std::vector<ptne::TransitionProperties> ts;
	for (int i = 0; i < k; ++i)
	{
		const std::string x = std::to_string(i);
		e.createPlace({ .name = "out" + x, .onEnterAction = [&s, &seen, i] { s.push_back(i); ++seen; } });
		ts.push_back({ .name = "T" + x, .activationArcs = { { .placeName = "in" }, { .placeName = "fuel" } }, .destinationArcs = { { .placeName = "in" }, { .placeName = "out" + x } } });
	}
	for (auto &t : ts)
	{
		t.destinationArcs[0].placeName = "done";
	}
	e.createPlace({ .name = "done" });
	ts.push_back({ .name = "again", .activationArcs = { { .placeName = "done" } }, .destinationArcs = { { .placeName = "in" } } });
	create(e, r, ts, false);
	for (long i = 0; i < n; i += block)
	{
		for (int j = 0; j < block; ++j) e.incrementInputPlace("fuel");
		e.execute();
		if (mode != Mode::SINGLE_THREAD)
		{
			while (e.getNumberOfTokens("fuel") != 0) std::this_thread::yield();
			if (!vh::await([&] { return seen >= i + block; })) vh::fail("missing-actions", "an action did not run");
			e.stop();
		}
		vh::tick();
	}
	// "again" may come after or before the competitors within a pass: the next round starts with the next pass or
	// within the same one; in the latter case a competitor that has had its turn cannot win
	std::vector<long> f(k, 0);
	for (int v : s) ++f[v];
	uniform(f, "cycling conflict of " + std::to_string(k));
	// same place of the runs
	std::vector<int> a(s.begin(), s.end() - block), b(s.begin() + block, s.end());
	independent(a, b, k, "choices at the same point of successive runs");
	for (int j = 0; j < std::min(block, 3); ++j)
	{
		std::vector<long> at(k, 0);
		for (size_t i = (size_t)j; i < s.size(); i += (size_t)block) ++at[s[i]];
		if (j == 0) uniform(at, "first choices of runs, " + std::to_string(k) + " competitors");
	}
	vh::count("rounds", (uint64_t)s.size());
	vh::count("rounds_within_runs", (uint64_t)s.size());
}

//! Two tokens, k competitors: every pair is equally likely.
void pairs(Rng &r, int k, long n)
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	std::vector<ptne::TransitionProperties> ts;
	std::vector<int> s;
	Conflict c = conflict(e, r, "c", k, ts, true, &s, 1);
	create(e, r, ts, false);
	std::vector<long> f((size_t)k * k, 0);
	for (long i = 0; i < n; ++i)
	{
		s.clear();
		e.incrementInputPlace(c.inputs[0]);
		e.incrementInputPlace(c.inputs[0]);
		e.execute();
		VH_CHECK(s.size() == 2, "not-two-winners", "two tokens were taken by " << s.size() << " of " << k << " competitors");
		if (s[0] != s[1]) ++f[(size_t)s[0] * k + s[1]];
		if (i % 256 == 0) vh::tick();
	}
	std::vector<long> g;
	for (int i = 0; i < k; ++i)
		for (int j = 0; j < k; ++j)
			if (i != j) g.push_back(f[(size_t)i * k + j]);
	uniform(g, "ordered pairs of winners out of " + std::to_string(k));
	vh::count("rounds", n);
	vh::count("rounds_over_two_tokens", n);
}

//! Several conflicts resolved in the same pass.
void several(Rng &r, long n)
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	std::vector<ptne::TransitionProperties> ts;
	const int m = (int)r.range(2, 4);
	std::vector<std::vector<int>> s(m);
	std::vector<Conflict> cs;
	for (int i = 0; i < m; ++i) cs.push_back(conflict(e, r, "c" + std::to_string(i), (int)r.range(2, 6), ts, r.chance(1, 2), &s[i], 1));
	create(e, r, ts, r.chance(1, 2));
	for (long i = 0; i < n; ++i)
	{
		for (auto &c : cs)
			for (auto &p : c.inputs) e.incrementInputPlace(p);
		e.execute();
		for (auto &v : s) VH_CHECK((long)v.size() == i + 1, "not-one-winner", "one round of a conflict over one token had " << v.size() - i << " winners");
		if (i % 256 == 0) vh::tick();
	}
	for (int i = 0; i < m; ++i)
	{
		sequence(s[i], cs[i].k, "one of " + std::to_string(m) + " conflicts");
		for (int j = 0; j < i; ++j)
		{
			if (cs[i].k == cs[j].k) independent(s[i], s[j], cs[i].k, "two conflicts of one pass");
			else
			{
				auto a = s[i], b = s[j];
				const int g = 2;
				for (auto &x : a) x = x < cs[i].k / 2 ? 0 : 1;
				for (auto &x : b) x = x < cs[j].k / 2 ? 0 : 1;
				independent(a, b, g, "two conflicts of one pass");
			}
		}
	}
	vh::count("rounds", n * m);
	vh::count("rounds_of_several_conflicts", n * m);
}

//! One of the threaded options. The token is there before the pass starts: a token that arrives while a pass is
//! looking for enabled transitions may be seen by some of the competitors only.
void threaded(Rng &r, Mode mode, int k, long n)
{
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(std::chrono::hours(1));
	std::vector<ptne::TransitionProperties> ts;
	Conflict c = conflict(e, r, "c", k, ts, true, nullptr, 1);
	create(e, r, ts, false);
	std::vector<int> s;
	for (long i = 0; i < n; ++i)
	{
		e.incrementInputPlace(c.inputs[0]);
		e.execute();
		while (e.getNumberOfTokens(c.inputs[0]) != 0) std::this_thread::yield();
		e.stop();
		s.push_back(chosen(e, c));
		if (i % 64 == 0) vh::tick();
	}
	sequence(s, k, std::string("in ") + modeName(mode) + " mode");
	vh::count("rounds", n);
	vh::count(std::string("rounds_") + modeName(mode), n);
}

std::vector<int> binaryChoices(uint64_t seed, int k, long n)
{
	Rng r(seed);
	PTN_Engine e(Mode::SINGLE_THREAD);
	std::vector<ptne::TransitionProperties> ts;
	std::vector<int> s;
	Conflict c = conflict(e, r, "c", k, ts, true, &s, 1);
	create(e, r, ts, true);
	for (long i = 0; i < n; ++i)
	{
		e.incrementInputPlace(c.inputs[0]);
		e.execute();
		vh::tick();
	}
	return s;
}

//! Engines built alike, run in turn or in parallel.
void engines(Rng &r)
{
	const int m = (int)r.range(2, 5), k = (int)r.range(2, 4);
	const long n = 2000;
	std::vector<std::vector<int>> s(m);
	const int how = (int)r.below(3);
	const uint64_t seed = r.next();
	if (how == 0)
	{
		for (auto &v : s) v = binaryChoices(seed, k, n);
	}
	else if (how == 1)
	{
		std::vector<std::thread> th;
		for (auto &v : s) th.emplace_back([&v, seed, k] { v = binaryChoices(seed, k, 2000); });
		for (auto &t : th) t.join();
	}
	else
	{
		// in lockstep: one round each
		std::vector<std::unique_ptr<PTN_Engine>> es;
		for (int i = 0; i < m; ++i)
		{
			es.push_back(std::make_unique<PTN_Engine>(Mode::SINGLE_THREAD));
			Rng q(seed);
			std::vector<ptne::TransitionProperties> ts;
			conflict(*es[i], q, "c", k, ts, true, &s[i], 1);
			create(*es[i], q, ts, true);
		}
		for (long i = 0; i < n; ++i)
			for (auto &e : es)
			{
				e->incrementInputPlace("c in");
				e->execute();
				vh::tick();
			}
	}
	for (int i = 0; i < m; ++i)
	{
		sequence(s[i], k, "one of several engines");
		for (int j = 0; j < i; ++j) differ(s[i], s[j], k, how == 0 ? "two engines, one after the other," : how == 1 ? "two engines run in parallel" : "two engines in lockstep");
	}
	vh::count("engines_compared", m);
	vh::count("rounds", (uint64_t)n * m);
}

//! Several runs of a process.
void processes(vh::Case &c, Rng &r)
{
	const int m = 5;
	const uint64_t seed = r.next();
	std::vector<pid_t> pids;
	std::vector<std::string> outs;
	const bool together = r.chance(1, 2);
	char self[4096] = {};
	if (readlink("/proc/self/exe", self, sizeof(self) - 1) <= 0) vh::error("no /proc/self/exe");
	auto wait = [](pid_t p)
	{
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) vh::error("child process failed: " + std::to_string(st));
	};
	for (int i = 0; i < m; ++i)
	{
		const std::string out = c.tmp + "/child" + std::to_string(i);
		outs.push_back(out);
		std::vector<std::string> args = { self, "--case-seed", std::to_string(seed), "--count", "1", "--tmp", c.tmp, "--out", out + ".json" };
		std::vector<char *> argv;
		for (auto &a : args) argv.push_back(a.data());
		argv.push_back(nullptr);
		std::vector<std::string> env;
		for (char **p = environ; *p; ++p) env.push_back(*p);
		env.push_back("C19_CHILD=" + out);
		std::vector<char *> envp;
		for (auto &a : env) envp.push_back(a.data());
		envp.push_back(nullptr);
		pid_t pid;
		if (posix_spawn(&pid, self, nullptr, nullptr, argv.data(), envp.data()) != 0) vh::error("posix_spawn");
		if (together) pids.push_back(pid);
		else wait(pid);
		vh::tick();
	}
	for (auto p : pids) wait(p);
	std::vector<std::vector<int>> s;
	for (auto &o : outs)
	{
		std::ifstream f(o);
		std::vector<int> v;
		for (int x; f >> x;) v.push_back(x);
		if (v.size() != 1000) vh::error("child process wrote " + std::to_string(v.size()) + " choices");
		s.push_back(v);
		unlink(o.c_str());
		unlink((o + ".json").c_str());
		unlink((o + ".json.status").c_str());
	}
	for (int i = 0; i < m; ++i)
		for (int j = 0; j < i; ++j) differ(s[i], s[j], 3, together ? "two processes started together" : "two processes run one after the other");
	vh::count("processes_compared", m);
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	if (const char *out = getenv("C19_CHILD"))
	{
		auto s = binaryChoices(c.seed, 3, 1000);
		std::ofstream f(out);
		for (int x : s) f << x << " ";
		return;
	}
	const uint64_t scale = c.thorough ? 6 : 1;
	g_worst = 0;
	const int kind = (int)((c.index + c.index / 8) % 12);
	std::string what;
	switch (kind)
	{
	case 0:
	{
		const int k = (int)r.range(65, 320);
		rounds(r, k, (long)(k * 60 * scale), r.chance(1, 2));
		what = std::to_string(k) + " competitors";
		break;
	}
	case 1:
		rounds(r, 2, (long)(30000 * scale), r.chance(1, 2));
		what = "2 competitors";
		break;
	case 2:
	case 3:
	{
		const int k = (int)r.range(2, 12);
		rounds(r, k, (long)(20000 * scale), kind == 2);
		what = std::to_string(k) + " competitors";
		break;
	}
	case 4:
	{
		const int k = (int)r.range(13, 64);
		rounds(r, k, (long)(k * 300 * scale), r.chance(1, 2));
		what = std::to_string(k) + " competitors";
		break;
	}
	case 5:
	case 6:
		cycles(r, r.chance(1, 2) ? Mode::SINGLE_THREAD : r.chance(1, 2) ? Mode::EVENT_LOOP : Mode::JOB_QUEUE, (int)r.range(2, 8), (long)(20000 * scale));
		what = "cycle";
		break;
	case 7:
		pairs(r, (int)r.range(3, 9), (long)(20000 * scale));
		what = "pairs";
		break;
	case 8:
		several(r, (long)(12000 * scale));
		what = "several conflicts";
		break;
	case 9:
	{
		static const Mode ms[] = { Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
		const Mode m = ms[r.below(3)];
		threaded(r, m, (int)r.range(2, 6), (long)(4000 * scale));
		what = modeName(m);
		break;
	}
	case 10:
		engines(r);
		what = "engines";
		break;
	case 11:
		processes(c, r);
		what = "processes";
		break;
	}
	vh::count("cases_" + what.substr(what.find(' ') == std::string::npos ? 0 : what.find(' ') + 1));
	vh::distinct(c.seed);
	vh::sample(what + ": largest deviation " + std::to_string(g_worst) + " standard deviations");
}
