id = "c17-sleep-lock"
prop = "C17"
needs = "setEventLoopSleepDuration called while the event loop thread reads the period"
what = "The period is read without its lock by the event loop thread: a data race with setEventLoopSleepDuration."
def edit(f):
    f("EventLoop.cpp", """	shared_lock lock(m_sleepDurationMutex);
	return m_sleepDuration;""", """	return m_sleepDuration;""")
sources = True
flags = "-fsanitize=thread"
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
	e.createPlace({ .name = "A", .input = true });
	e.setEventLoopSleepDuration(1ms);
	e.execute();
	for (int i = 0; i < 300; ++i)
	{
		e.setEventLoopSleepDuration(milliseconds(1 + i % 3));
		std::this_thread::sleep_for(1ms);
	}
	e.stop();
	return 0;
}
'''
repeat = 2
