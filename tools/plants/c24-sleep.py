id = "c24-static-period"
prop = "C24"
needs = "two engines given different watchdog periods"
what = "The watchdog period is shared by all engines of the process."
def edit(f):
    f("EventLoop.h", "	SleepDuration m_sleepDuration", "	static inline SleepDuration m_sleepDuration")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
using namespace std::chrono_literals;
int main()
{
	PTN_Engine a, b;
	a.setEventLoopSleepDuration(5ms);
	b.setEventLoopSleepDuration(1000ms);
	return a.getEventLoopSleepDuration() == 5ms && b.getEventLoopSleepDuration() == 1000ms ? 0 : 1;
}
'''
