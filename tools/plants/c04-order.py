id = "c04-flag-after-notify"
prop = "C04"
needs = "the event loop thread evaluates its wait predicate between the notification and the setting of the flag, and then sleeps for its whole period"
what = "incrementInputPlace notifies the event loop before it raises the flag the loop waits for, so the wake-up can be lost and the input is not processed until the watchdog period elapses."
def edit(f):
    f("PTN_EngineImp.cpp", """	m_newInputReceived = true;
	m_eventLoop.notifyNewEvent();
}
""", """	m_eventLoop.notifyNewEvent();
	m_newInputReceived = true;
}
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	std::atomic<long> n{ 0 };
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { ++n; } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.setEventLoopSleepDuration(hours(1));
	e.execute();
	for (long i = 1; i < 300000; ++i)
	{
		e.incrementInputPlace("A");
		const auto end = steady_clock::now() + seconds(20);
		while (n < i)
			if (steady_clock::now() > end) std::quick_exit(1);
		// let the loop go to sleep
		const auto until = steady_clock::now() + microseconds(i % 30);
		while (steady_clock::now() < until) {}
		static const auto all = steady_clock::now() + seconds(60);
		if (steady_clock::now() > all) break;
	}
	return 0;
}
'''
limit = 200
