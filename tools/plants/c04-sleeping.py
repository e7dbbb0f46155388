id = 'c04-sleeping-flag'
prop = 'C04'
needs = 'an input between the look for new input and the note that the loop is going to sleep'
what = 'Inputs wake the loop only if it has noted that it is about to sleep, which it does after having looked for new input.'
def edit(f):
    f('EventLoop.cpp', '\t\t\t\t\t\t\t\t\t { return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); });', '\t\t\t\t\t\t\t\t\t {\n\t\t\t\t\t\t\t\t\t\t const bool wakeUp = stopToken.stop_requested() || m_ptnEngine.getNewInputReceived();\n\t\t\t\t\t\t\t\t\t\t m_sleeping = !wakeUp;\n\t\t\t\t\t\t\t\t\t\t return wakeUp;\n\t\t\t\t\t\t\t\t\t });\n\t\t\tm_sleeping = false;')
    f('EventLoop.cpp', '\tunique_lock eventNotifierGuard(m_eventNotifierMutex);\n\tm_eventNotifier.notify_all', '\tif (!m_sleeping && !m_eventLoopThread.get_stop_token().stop_requested())\n\t{\n\t\treturn;\n\t}\n\tunique_lock eventNotifierGuard(m_eventNotifierMutex);\n\tm_eventNotifier.notify_all')
    f('EventLoop.h', '\tstd::atomic<bool> m_eventLoopThreadRunning = false;', '\tstd::atomic<bool> m_eventLoopThreadRunning = false;\n\n\t//! Whether the event loop thread waits for the next event.\n\tstd::atomic<bool> m_sleeping = false;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::EVENT_LOOP);
	e.setEventLoopSleepDuration(1h);
	std::atomic<long> n{ 0 };
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { ++n; } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.execute();
	bool bad = false;
	const auto end = std::chrono::steady_clock::now() + 100s;
	unsigned x = 12345;
	for (long i = 0; !bad && std::chrono::steady_clock::now() < end && i < 4000000; ++i)
	{
		e.incrementInputPlace("A");
		const auto t = std::chrono::steady_clock::now() + 15s;
		for (long k = 0; n <= i; ++k)
			if (k > 100000)
			{
				usleep(1000);
				if (std::chrono::steady_clock::now() > t) { bad = true; break; }
			}
		x = x * 1103515245 + 12345;
		for (unsigned k = x >> 22; k; --k) asm volatile("");
	}
	e.stop();
	return bad ? 1 : 0;
}
'''
repeat = 1
limit = 200
