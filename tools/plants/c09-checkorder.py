id = 'c09-check-order'
prop = 'C09'
needs = "an input whose on-enter action is dispatched between the transition's look at the running actions and its look at the tokens"
what = 'A transition looks for running actions before it looks at its tokens, so an input arriving in between is consumed while its on-enter action is running.'
def edit(f):
    f('Transition.cpp', '\treturn isEnabledInternal() && (!m_requireNoActionsInExecution || noActionsInExecution()) &&\n\t\t   checkAdditionalConditions();', '\treturn (!m_requireNoActionsInExecution || noActionsInExecution()) && isEnabledInternal() &&\n\t\t   checkAdditionalConditions();')
demo = r'''
// The engine is compiled with a callback at every edge, which delays the threads at random.
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
static thread_local unsigned seed = 0;
static unsigned seeds = 1;
static int onFlag = 0;
struct On { void operator=(bool b) { __atomic_store_n(&onFlag, b, __ATOMIC_RELAXED); } } on;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc()
{
	if (!__atomic_load_n(&onFlag, __ATOMIC_RELAXED)) return;
	if (!seed) seed = 77777 * __atomic_add_fetch(&seeds, 1, __ATOMIC_RELAXED);
	seed = seed * 1664525 + 1013904223;
	if (seed >> 26 == 0) usleep(20 + (seed >> 16) % 100);
}
int main()
{
	bool bad = false;
	const auto until = std::chrono::steady_clock::now() + 60s;
	std::atomic<long> begun{ 0 }, ended{ 0 };
	std::atomic<bool> hold{ false };
	{
		PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::DETACHED);
		e.setEventLoopSleepDuration(1ms);
		e.createPlace({ .name = "A", .initialNumberOfTokens = 1000000000, .onEnterAction = [&] { ++begun; while (hold) usleep(50); ++ended; }, .input = true });
		e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .requireNoActionsInExecution = true });
		e.execute();
		long n = 0;
		while (!bad && std::chrono::steady_clock::now() < until)
		{
			on = true;
			usleep(300);
			hold = true;
			e.incrementInputPlace("A");
			++n;
			// until it is released the action is in execution: nothing may be taken from A
			const size_t a = e.getNumberOfTokens("A");
			on = false;
			usleep(1500);
			bad = e.getNumberOfTokens("A") != a;
			hold = false;
			while (ended < n) usleep(100);
		}
		e.stop();
	}
	return bad ? 1 : 0;
}
'''
repeat = 2
sources = True
flags = "-fsanitize-coverage=trace-pc"
