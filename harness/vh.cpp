#include "vh.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_set>

namespace vh
{
namespace
{
struct Shared
{
	uint64_t index;
	uint64_t seed;
	uint64_t done;
	char text[8192];
};
Shared *g_shared = nullptr;
std::string g_out;
std::mutex g_mutex;
std::map<std::string, uint64_t> g_counts;
std::unordered_set<uint64_t> g_distinct;
std::vector<std::string> g_samples;
std::atomic<uint64_t> g_ticks{ 0 };
std::set<int> g_runtimeTids;
std::atomic<int> g_monitorTid{ 0 };
std::atomic<bool> g_finished{ false };
std::atomic<bool> g_monitorGo{ false };
std::atomic<bool> g_failed{ false };

std::string jsonEscape(const std::string &s)
{
	std::string o;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			o += '\\';
			o += (char)c;
		}
		else if (c < 0x20 || c >= 0x7f)
		{
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else
		{
			o += (char)c;
		}
	}
	return o;
}

void writeOut(const std::string &status, const std::string &kind, const std::string &message)
{
	// deliberately lock-free on failure paths: other threads may hold g_mutex
	std::ofstream f(g_out + ".tmp");
	f << "{\"status\":\"" << status << "\",\"kind\":\"" << jsonEscape(kind) << "\",\"message\":\""
	  << jsonEscape(message) << "\",\"case\":" << g_shared->index << ",\"seed\":" << g_shared->seed
	  << ",\"done\":" << g_shared->done << ",\"text\":\"" << jsonEscape(g_shared->text) << "\"";
	f << ",\"noise_injected\":" << noise::injected() << ",\"noise_sleeps\":" << noise::sleeps();
	f << ",\"edges_total\":" << noise::edgesTotal() << ",\"edges_hit\":[";
	bool first = true;
	for (uint32_t i = 1; i <= noise::edgesTotal(); ++i)
	{
		if (noise::edgeHit(i))
		{
			f << (first ? "" : ",") << i;
			first = false;
		}
	}
	f << "],\"counts\":{";
	const bool locked = g_mutex.try_lock();
	if (locked)
	{
		first = true;
		for (auto &[k, v] : g_counts)
		{
			f << (first ? "" : ",") << "\"" << jsonEscape(k) << "\":" << v;
			first = false;
		}
	}
	f << "},\"distinct\":[";
	if (locked)
	{
		first = true;
		for (uint64_t h : g_distinct)
		{
			f << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\"";
			first = false;
		}
	}
	f << "],\"samples\":[";
	if (locked)
	{
		first = true;
		for (auto &s : g_samples)
		{
			f << (first ? "" : ",") << "\"" << jsonEscape(s) << "\"";
			first = false;
		}
		g_mutex.unlock();
	}
	f << "]}\n";
	f.close();
	rename((g_out + ".tmp").c_str(), g_out.c_str());
}

struct TaskInfo
{
	unsigned long long vol = 0, nonvol = 0;
	char state = '?';
	std::string comm;
};

std::map<int, TaskInfo> readTasks()
{
	std::map<int, TaskInfo> r;
	DIR *d = opendir("/proc/self/task");
	if (!d)
	{
		return r;
	}
	while (dirent *e = readdir(d))
	{
		const int tid = atoi(e->d_name);
		if (tid <= 0)
		{
			continue;
		}
		std::ifstream f("/proc/self/task/" + std::string(e->d_name) + "/status");
		std::string line;
		TaskInfo t;
		while (std::getline(f, line))
		{
			if (line.rfind("State:", 0) == 0)
			{
				t.state = line.size() > 7 ? line[7] : '?';
			}
			else if (line.rfind("voluntary_ctxt_switches:", 0) == 0)
			{
				t.vol = strtoull(line.c_str() + 24, nullptr, 10);
			}
			else if (line.rfind("nonvoluntary_ctxt_switches:", 0) == 0)
			{
				t.nonvol = strtoull(line.c_str() + 27, nullptr, 10);
			}
		}
		r[tid] = t;
	}
	closedir(d);
	return r;
}

void monitor(int stuckSeconds, int livelockSeconds)
{
	g_monitorTid = currentTid();
	while (!g_monitorGo)
	{
		usleep(1000);
	}
	std::map<int, TaskInfo> last;
	int quiet = 0;
	uint64_t lastTick = g_ticks;
	int64_t lastProgress = nowNs();
	while (!g_finished)
	{
		for (int i = 0; i < 10 && !g_finished; ++i)
		{
			usleep(100000);
		}
		auto now = readTasks();
		now.erase(g_monitorTid.load());
		for (int t : g_runtimeTids)
		{
			now.erase(t);
		}
		bool moved = now.size() != last.size();
		for (auto &[tid, t] : now)
		{
			auto it = last.find(tid);
			if (it == last.end() || it->second.vol != t.vol || it->second.nonvol != t.nonvol || t.state != 'S')
			{
				moved = true;
			}
		}
		last = now;
		quiet = moved ? 0 : quiet + 1;
		if (g_ticks != lastTick)
		{
			lastTick = g_ticks;
			lastProgress = nowNs();
			quiet = 0;
		}
		if (g_finished || g_failed)
		{
			return;
		}
		if (quiet >= stuckSeconds)
		{
			std::ostringstream o;
			o << "no thread of the process was scheduled for " << quiet << " s while the workload still expected progress; "
			  << now.size() << " threads asleep";
			writeOut("stuck", "stuck", o.str());
			std::cerr << "STUCK " << o.str() << std::endl;
			_exit(4);
		}
		if ((nowNs() - lastProgress) / 1000000000 > livelockSeconds)
		{
			writeOut("timeout", "timeout", "no progress of the workload within the wall-clock backstop");
			std::cerr << "TIMEOUT" << std::endl;
			_exit(5);
		}
	}
}
} // namespace

bool await(const std::function<bool()> &cond, double seconds, const std::function<long()> &progress, long minProgress)
{
	const int64_t start = nowNs();
	int64_t lastSeen = start;
	int64_t waited = 0;
	const long p0 = progress ? progress() : 0;
	unsigned us = 50;
	while (!cond())
	{
		timespec ts{ 0, (long)us * 1000 };
		nanosleep(&ts, nullptr);
		us = std::min(us * 2, 20000u);
		const int64_t now = nowNs();
		// time in which this thread itself was not scheduled does not count
		waited += std::min<int64_t>(now - lastSeen, 100000000);
		lastSeen = now;
		tick();
		if (waited > (int64_t)(seconds * 1e9) && (!progress || progress() - p0 >= minProgress))
		{
			return cond();
		}
		if (waited > (int64_t)(seconds * 10e9))
		{
			return cond();
		}
	}
	return true;
}

int currentTid()
{
	return (int)syscall(SYS_gettid);
}

void fail(const std::string &kind, const std::string &message)
{
	if (g_failed.exchange(true))
	{
		for (;;)
		{
			pause();
		}
	}
	noise::off();
	std::cerr << "VIOLATION-KIND " << kind << ": " << message << std::endl;
	writeOut("violation", kind, message);
	_exit(3);
}

void error(const std::string &message)
{
	if (g_failed.exchange(true))
	{
		for (;;)
		{
			pause();
		}
	}
	std::cerr << "HARNESS-ERROR " << message << std::endl;
	writeOut("error", "error", message);
	_exit(6);
}

static thread_local bool t_muted = false;
void muteDescribe(bool mute)
{
	t_muted = mute;
}
void describe(const std::string &text)
{
	if (t_muted) return;
	const size_t n = std::min(text.size(), sizeof(g_shared->text) - 1);
	memcpy(g_shared->text, text.data(), n);
	g_shared->text[n] = 0;
}

void count(const std::string &name, uint64_t n)
{
	std::lock_guard l(g_mutex);
	g_counts[name] += n;
}

void distinct(uint64_t hash)
{
	std::lock_guard l(g_mutex);
	if (g_distinct.size() < 200000)
	{
		g_distinct.insert(hash);
	}
}

void sample(const std::string &text)
{
	std::lock_guard l(g_mutex);
	if (g_samples.size() < 3)
	{
		g_samples.push_back(text.substr(0, 1500));
	}
}

void tick()
{
	g_ticks.fetch_add(1, std::memory_order_relaxed);
}
} // namespace vh

int main(int argc, char **argv)
{
	using namespace vh;
	uint64_t seed = 1, first = 0, count = 10, stride = 1;
	int stuck = 12, livelock = 60;
	double budget = 1e9;
	bool thorough = false;
	std::string tmp = "/tmp";
	bool single = false;
	uint64_t caseSeed = 0;
	for (int i = 1; i < argc; ++i)
	{
		const std::string a = argv[i];
		auto v = [&]() -> std::string
		{
			if (i + 1 >= argc)
			{
				fprintf(stderr, "missing value\n");
				exit(6);
			}
			return argv[++i];
		};
		if (a == "--seed") seed = strtoull(v().c_str(), nullptr, 0);
		else if (a == "--first") first = strtoull(v().c_str(), nullptr, 0);
		else if (a == "--count") count = strtoull(v().c_str(), nullptr, 0);
		else if (a == "--stride") stride = strtoull(v().c_str(), nullptr, 0);
		else if (a == "--budget") budget = atof(v().c_str());
		else if (a == "--stuck") stuck = atoi(v().c_str());
		else if (a == "--livelock") livelock = atoi(v().c_str());
		else if (a == "--thorough") thorough = true;
		else if (a == "--out") g_out = v();
		else if (a == "--tmp") tmp = v();
		else if (a == "--case-seed") { single = true; caseSeed = strtoull(v().c_str(), nullptr, 0); }
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 6; }
	}
	if (g_out.empty())
	{
		g_out = tmp + "/out.json";
	}
	const int fd = open((g_out + ".status").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0)
	{
		perror("status");
		return 6;
	}
	g_shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	for (auto &[tid, _] : readTasks())
	{
		if (tid != currentTid())
		{
			g_runtimeTids.insert(tid);
		}
	}
	std::thread mon(monitor, stuck, livelock);
	while (g_monitorTid == 0)
	{
		usleep(100);
	}
	// a runtime thread may be created lazily, together with our first thread
	for (auto &[tid, _] : readTasks())
	{
		if (tid != currentTid() && tid != g_monitorTid)
		{
			g_runtimeTids.insert(tid);
		}
	}
	g_monitorGo = true;
	const int64_t start = nowNs();
	uint64_t ran = 0;
	for (uint64_t k = 0; k < count; ++k)
	{
		if ((double)(nowNs() - start) / 1e9 > budget && ran > 0)
		{
			vh::count("budget_stops");
			break;
		}
		Case c;
		c.index = first + k * stride;
		c.seed = single ? caseSeed : mix(seed * 0x100000001b3ull + c.index);
		c.thorough = thorough;
		c.tmp = tmp;
		g_shared->index = c.index;
		g_shared->seed = c.seed;
		g_shared->text[0] = 0;
		Rng rng(c.seed);
		tick();
		try
		{
			vh_case(c, rng);
		}
		catch (const std::exception &e)
		{
			noise::off();
			vh::fail("unexpected-exception", std::string("an API call that must succeed threw: ") + e.what());
		}
		noise::off();
		++ran;
		g_shared->done = ran;
	}
	g_finished = true;
	vh::count("cases", ran);
	writeOut("ok", "", "");
	mon.join();
	return 0;
}
