// Schedule perturbation and edge coverage. This file is compiled WITHOUT sanitizers.
// The engine's sources are compiled with -fsanitize-coverage=trace-pc-guard; the
// callbacks below run at every control-flow edge of the engine and, when enabled,
// inject seeded yields and sleeps there.
#include "noise.h"
#include <atomic>
#include <cstdlib>
#include <ctime>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace
{
constexpr uint32_t MAX_EDGES = 1u << 16;
uint32_t g_edges = 0;
std::atomic<uint8_t> g_hit[MAX_EDGES];
std::atomic<int> g_mode{ 0 };
std::atomic<uint64_t> g_seed{ 1 };
std::atomic<uint64_t> g_epoch{ 0 };
std::atomic<long> g_budgetNs{ 0 };
std::atomic<uint32_t> g_target[4];
std::atomic<uint32_t> g_targetSleepUs{ 500 };
std::atomic<uint64_t> g_injected{ 0 };
std::atomic<uint64_t> g_sleeps{ 0 };
std::atomic<uint64_t> g_threads{ 0 };

struct ThreadState
{
	uint64_t epoch = ~0ull;
	uint64_t rng = 0;
	uint32_t slow = 0;
};
thread_local ThreadState t_state;

inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

void rawSleepUs(uint32_t us)
{
	const long ns = (long)us * 1000;
	if (g_budgetNs.fetch_sub(ns, std::memory_order_relaxed) < ns)
	{
		g_budgetNs.fetch_add(ns, std::memory_order_relaxed);
		return;
	}
	timespec ts{ us / 1000000, (long)(us % 1000000) * 1000 };
	syscall(SYS_nanosleep, &ts, nullptr);
	g_sleeps.fetch_add(1, std::memory_order_relaxed);
}

void perturb(uint32_t id, int mode)
{
	auto &t = t_state;
	const uint64_t epoch = g_epoch.load(std::memory_order_relaxed);
	if (t.epoch != epoch)
	{
		t.epoch = epoch;
		t.rng = mix(g_seed.load(std::memory_order_relaxed) ^ mix(g_threads.fetch_add(1, std::memory_order_relaxed)));
		t.slow = (t.rng >> 40) % 3;
	}
	t.rng = mix(t.rng);
	const uint64_t r = t.rng;
	switch (mode)
	{
	case 1: // yields
		if ((r & 31) == 0)
		{
			g_injected.fetch_add(1, std::memory_order_relaxed);
			sched_yield();
		}
		break;
	case 2: // sparse random sleeps
		if ((r & 127) == 0)
		{
			g_injected.fetch_add(1, std::memory_order_relaxed);
			rawSleepUs(10 + (r >> 20) % 200);
		}
		break;
	case 3: // long sleeps at a few chosen edges
		for (auto &target : g_target)
		{
			if (target.load(std::memory_order_relaxed) == id && (r & 1) == 0)
			{
				g_injected.fetch_add(1, std::memory_order_relaxed);
				rawSleepUs(g_targetSleepUs.load(std::memory_order_relaxed));
			}
		}
		if ((r & 0xff00) == 0)
		{
			sched_yield();
		}
		break;
	case 4: // threads of different speeds
		if (t.slow != 0 && (r & (t.slow == 1 ? 63 : 15)) == 0)
		{
			g_injected.fetch_add(1, std::memory_order_relaxed);
			rawSleepUs(5 + (r >> 20) % (t.slow == 1 ? 20 : 120));
		}
		break;
	default:
		break;
	}
}
} // namespace

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
	if (start == stop || *start)
	{
		return;
	}
	for (uint32_t *x = start; x < stop; ++x)
	{
		*x = ++g_edges;
	}
}

extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
	const uint32_t id = *guard;
	if (id < MAX_EDGES && !g_hit[id].load(std::memory_order_relaxed))
	{
		g_hit[id].store(1, std::memory_order_relaxed);
	}
	const int mode = g_mode.load(std::memory_order_relaxed);
	if (mode != 0)
	{
		perturb(id, mode);
	}
}

namespace noise
{
void configure(uint64_t seed, int mode, long budgetUs)
{
	g_mode.store(0, std::memory_order_relaxed);
	g_seed.store(seed, std::memory_order_relaxed);
	g_threads.store(0, std::memory_order_relaxed);
	g_epoch.fetch_add(1, std::memory_order_relaxed);
	g_budgetNs.store(budgetUs * 1000, std::memory_order_relaxed);
	if (mode == 3)
	{
		// choose among edges that were reached at least once in this process
		uint64_t s = mix(seed ^ 0xabcdef);
		static uint32_t hits[MAX_EDGES];
		uint32_t n = 0;
		for (uint32_t i = 1; i <= g_edges && i < MAX_EDGES; ++i)
		{
			if (g_hit[i].load(std::memory_order_relaxed))
			{
				hits[n++] = i;
			}
		}
		for (auto &target : g_target)
		{
			s = mix(s);
			// the same total share for small and big functions is not needed; uniform over edges
			target.store(n ? hits[s % n] : 0, std::memory_order_relaxed);
		}
		static const uint32_t sleeps[] = { 100, 300, 800, 2000, 5000 };
		g_targetSleepUs.store(sleeps[mix(s) % 5], std::memory_order_relaxed);
	}
	g_mode.store(mode, std::memory_order_relaxed);
}
void off()
{
	g_mode.store(0, std::memory_order_relaxed);
}
uint64_t injected()
{
	return g_injected.load(std::memory_order_relaxed);
}
uint64_t sleeps()
{
	return g_sleeps.load(std::memory_order_relaxed);
}
uint32_t edgesTotal()
{
	return g_edges;
}
bool edgeHit(uint32_t i)
{
	return i < MAX_EDGES && g_hit[i].load(std::memory_order_relaxed);
}
} // namespace noise
