id = "c05-period-read-once"
prop = "C05"
needs = "setEventLoopSleepDuration called while the engine is running, after the loop thread has started"
what = "The watchdog period is read once when the event loop thread starts, so a period changed while running has no effect until the engine is restarted."
def edit(f):
    f("EventLoop.cpp", """	while (!stopToken.stop_requested())
	{
		if""", """	const auto period = min<SleepDuration>(getSleepDuration(), 24h * 36500);
	while (!stopToken.stop_requested())
	{
		if""")
    f("EventLoop.cpp", """			// Beyond a century the time point to wait for could not be represented.
			const auto sleepDuration = clamp<SleepDuration>(getSleepDuration(), SleepDuration::zero(), 24h * 36500);
""", "")
    f("EventLoop.cpp", "wait_for(eventNotifierGuard, sleepDuration,", "wait_for(eventNotifierGuard, period,")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	std::atomic<bool> open{ false };
	std::atomic<long> passes{ 0 };
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "I", .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .additionalConditions = { [&] { ++passes; return open.load(); } } });
	e.setEventLoopSleepDuration(hours(1));
	e.execute();
	while (passes < 1) std::this_thread::sleep_for(1ms);
	e.setEventLoopSleepDuration(5ms);
	e.incrementInputPlace("I"); // the running wait ends, the next ones take 5 ms
	while (passes < 2) std::this_thread::sleep_for(1ms);
	std::this_thread::sleep_for(20ms);
	open = true;
	for (int i = 0; i < 200 && e.getNumberOfTokens("B") == 0; ++i) std::this_thread::sleep_for(50ms);
	const bool ok = e.getNumberOfTokens("B") == 1;
	if (!ok) std::quick_exit(1);


	return 0;
}
'''
