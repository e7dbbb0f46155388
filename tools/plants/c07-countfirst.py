id = 'c07-count-before-wait'
prop = 'C07'
needs = 'an input in an activation place of a requireNoActionsInExecution transition whose condition is being evaluated'
what = 'A token entering a place whose on-enter actions are held back is counted at once; its action is triggered only after the wait.'
def edit(f):
    f('Place.cpp', '\tunique_lock guard(m_mutex);\n\twhile (m_onEnterAction != nullptr', '\tunique_lock guard(m_mutex);\n\tincreaseNumberOfTokens(tokens);\n\twhile (m_onEnterAction != nullptr')
    f('Place.cpp', '\t\tguard.lock();\n\t}\n\tincreaseNumberOfTokens(tokens);\n', '\t\tguard.lock();\n\t}\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	for (int k = 0; k < 5; ++k)
	{
		std::mutex m;
		std::string log;
		std::atomic<bool> in{ false };
		PTN_Engine e(Mode::JOB_QUEUE);
		e.setEventLoopSleepDuration(5ms);
		e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onEnterAction = [&] { std::lock_guard l(m); log += '+'; }, .onExitAction = [&] { std::lock_guard l(m); log += '-'; }, .input = true });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .additionalConditions = { [&] { in = true; usleep(20000); return true; } }, .requireNoActionsInExecution = true });
		e.execute();
		while (!in) usleep(100);
		e.incrementInputPlace("A");
		for (int i = 0; i < 1000 && e.getNumberOfTokens("B") < 2; ++i) usleep(10000);
		e.stop();
		for (int i = 0; i < 1000; ++i)
		{
			usleep(10000);
			std::lock_guard l(m);
			if (log.size() == 3) break;
		}
		std::lock_guard l(m);
		// one token there initially; the second must enter before it leaves
		if (log == "--+") return 1;
	}
	return 0;
}
'''
repeat = 1
