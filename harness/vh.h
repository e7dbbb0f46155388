#pragma once
// Common harness runtime: case loop, verdicts, evidence, hang monitor, RNG, event gates.
#include <atomic>
#include <deque>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "noise.h"

namespace vh
{
inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v)
{
	return mix(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2)));
}

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed)
	: s(mix(seed ^ 0x1234567))
	{
	}
	uint64_t next()
	{
		s += 0x9e3779b97f4a7c15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	//! uniform in [0, n)
	uint64_t below(uint64_t n)
	{
		return n ? next() % n : 0;
	}
	//! uniform in [a, b]
	int64_t range(int64_t a, int64_t b)
	{
		return a + (int64_t)below((uint64_t)(b - a + 1));
	}
	bool chance(int num, int den)
	{
		return (int)below(den) < num;
	}
	template <class V>
	auto &pick(V &v)
	{
		return v[below(v.size())];
	}
	template <class V>
	void shuffle(V &v)
	{
		for (size_t i = v.size(); i > 1; --i)
		{
			std::swap(v[i - 1], v[below(i)]);
		}
	}
};

struct Case
{
	uint64_t index = 0;
	uint64_t seed = 0;
	bool thorough = false;
	std::string tmp; //!< scratch directory of this worker
};

//! Report a violation of the property and end the process.
[[noreturn]] void fail(const std::string &kind, const std::string &message);
//! Report that the harness itself could not do its work, and end the process.
[[noreturn]] void error(const std::string &message);
//! Free text describing the current case: printed with a violation or crash. Keep short.
void describe(const std::string &text);
//! Calls of describe() by this thread have no effect (several threads each running a workload).
void muteDescribe(bool mute);
//! Evidence counters.
void count(const std::string &name, uint64_t n = 1);
//! A distinct, non-trivial case/execution/trace was observed.
void distinct(uint64_t hash);
//! A written-out example for the evidence file.
void sample(const std::string &text);
//! Progress mark for the livelock backstop.
void tick();

inline void check(bool ok, const char *kind, const std::function<std::string()> &msg)
{
	if (!ok)
	{
		fail(kind, msg());
	}
}
#define VH_CHECK(cond, kind, expr)                                  \
	do                                                              \
	{                                                               \
		if (!(cond))                                                \
		{                                                           \
			std::ostringstream vh_oss;                              \
			vh_oss << expr << "   [" << #cond << "]";               \
			vh::fail(kind, vh_oss.str());                           \
		}                                                           \
	} while (0)

//! Counter other threads can block on, without timeouts (so that a stuck run is really asleep).
class Gate
{
public:
	void add(long n = 1)
	{
		std::lock_guard l(m_m);
		m_n += n;
		m_c.notify_all();
	}
	long value() const
	{
		std::lock_guard l(m_m);
		return m_n;
	}
	void waitFor(long n) const
	{
		std::unique_lock l(m_m);
		m_c.wait(l, [&] { return m_n >= n; });
	}

private:
	mutable std::mutex m_m;
	mutable std::condition_variable m_c;
	long m_n = 0;
};

//! Wait for a condition that correct code reaches without external help, by polling.
//! Gives up (returns false) only after `seconds` of wall clock in which, in addition, `progress` (if
//! given) has advanced by at least `minProgress`: other parts of the process were being scheduled.
bool await(const std::function<bool()> &cond,
           double seconds = 20,
           const std::function<long()> &progress = nullptr,
           long minProgress = 500);

int currentTid();

using Clock = std::chrono::steady_clock;
inline int64_t nowNs()
{
	return std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now().time_since_epoch()).count();
}
} // namespace vh

// Provided by each property's source file.
extern const char *vh_property;
void vh_case(vh::Case &c, vh::Rng &rng);
