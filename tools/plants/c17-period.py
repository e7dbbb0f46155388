id = 'c17-period-deadlock'
prop = 'C17'
needs = 'setEventLoopSleepDuration just as the loop goes to sleep'
what = 'Setting the period notifies the loop with the period locked, the loop reads the period with the notification locked.'
def edit(f):
    f('EventLoop.cpp', '\tm_sleepDuration = sleepDuration;\n', '\tm_sleepDuration = sleepDuration;\n\tnotifyNewEvent();\n')
    f('EventLoop.cpp', '\t\t\tunique_lock eventNotifierGuard(m_eventNotifierMutex);\n\t\t\tm_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,', '\t\t\tm_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,')
    f('EventLoop.cpp', '\t\t\t// Beyond a century', '\t\t\tunique_lock eventNotifierGuard(m_eventNotifierMutex);\n\t\t\t// Beyond a century')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	auto *e = new PTN_Engine(Mode::EVENT_LOOP);
	e->createPlace({ .name = "A", .input = true });
	e->createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } } });
	e->setEventLoopSleepDuration(1ms);
	std::atomic<bool> done{ false };
	std::thread([&] {
		e->execute();
		const auto until = std::chrono::steady_clock::now() + 20s;
		while (std::chrono::steady_clock::now() < until)
			for (int i = 0; i < 100; ++i) e->setEventLoopSleepDuration(std::chrono::milliseconds(i % 2));
		done = true;
	}).detach();
	for (int i = 0; i < 6000 && !done; ++i) usleep(10000);
	_exit(done ? 0 : 1);
}
'''
repeat = 1
