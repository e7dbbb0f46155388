id = 'c12-stop-not-noticed'
prop = 'C12'
needs = 'a stop just as the loop has begun to evaluate a net with nothing to fire, with a long sleep duration'
what = 'The loop looks for a stop request before it evaluates the net, no longer as it goes to sleep, so a stop during the evaluation waits for the sleep duration.'
def edit(f):
    f('EventLoop.cpp', '{ return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); }', '{ return m_stopNoticed.exchange(false) || m_ptnEngine.getNewInputReceived(); }')
    f('EventLoop.cpp', '\t\tif (!m_ptnEngine.executeInt(log, o))\n\t\t{\n', '\t\tif (!m_ptnEngine.executeInt(log, o))\n\t\t{\n\t\t\tm_stopNoticed = false;\n')
    f('EventLoop.cpp', '\t\tm_eventLoopThread.request_stop();\n\t\tnotifyNewEvent();', '\t\tm_eventLoopThread.request_stop();\n\t\tm_stopNoticed = true;\n\t\tnotifyNewEvent();')
    f('EventLoop.h', '\tvoid run(std::stop_token', '\tstd::atomic<bool> m_stopNoticed{ false };\n\tvoid run(std::stop_token')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	auto *e = new PTN_Engine(Mode::EVENT_LOOP);
	std::atomic<bool> in{ false };
	e->setEventLoopSleepDuration(1h);
	e->createPlace({ .name = "A", .initialNumberOfTokens = 1, .input = true });
	e->createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .additionalConditions = { [&] { in = true; usleep(200000); return false; } } });
	std::atomic<bool> done{ false };
	std::thread([&] {
		e->execute();
		while (!in) usleep(100);
		e->stop();
		done = true;
	}).detach();
	for (int i = 0; i < 2000 && !done; ++i) usleep(10000);
	_exit(done ? 0 : 1);
}
'''
repeat = 1
