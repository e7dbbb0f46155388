id = "c05-backoff"
prop = "C05"
needs = "an engine idle for several periods in a row before a condition becomes true"
what = "An idle event loop doubles its period up to 16 times the configured one, so a condition is noticed much later than a period after it became true."
def edit(f):
    f("EventLoop.cpp", """	while (!stopToken.stop_requested())
	{
		if (!m_ptnEngine.executeInt(log, o))
		{
""", """	unsigned idle = 0;
	while (!stopToken.stop_requested())
	{
		if (m_ptnEngine.executeInt(log, o) || m_ptnEngine.getNewInputReceived())
		{
			idle = 0;
		}
		else
		{
			idle = idle < 4 ? idle + 1 : 4;
""")
    f("EventLoop.cpp", """m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,""", """m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration * (1 << (idle - 1)),""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	std::atomic<bool> open{ false };
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .additionalConditions = { [&] { return open.load(); } } });
	e.setEventLoopSleepDuration(milliseconds(500));
	e.execute();
	std::this_thread::sleep_for(milliseconds(500 * 15 + 1000));
	open = true;
	std::this_thread::sleep_for(milliseconds(2500));
	return e.getNumberOfTokens("B") == 1 ? 0 : 1;
}
'''
repeat = 2
