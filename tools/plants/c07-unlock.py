id = 'c07-handed-over-unlocked'
prop = 'C07'
needs = 'a token taken by the loop just after it was put in a place, before its action is queued'
what = 'A place hands its on-enter action over after it has let go of its lock.'
def edit(f):
    f('Place.cpp', '\tlockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);', '\tauto executor = lockWeakPtr(m_actionsExecutor);\n\tguard.unlock();\n\texecutor->executeAction(m_onEnterAction, m_onEnterActionsInExecution);')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	// the exit of a token is queued after its entry
	for (int k = 0; k < 3; ++k)
	{
		std::atomic<long> in{ 0 }, out{ 0 };
		std::atomic<bool> bad{ false };
		PTN_Engine e(Mode::JOB_QUEUE);
		e.createPlace({ .name = "A", .onEnterAction = [&] { ++in; }, .onExitAction = [&] { if (++out > in) bad = true; }, .input = true });
		e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } } });
		e.execute();
		for (int i = 0; i < 200000; ++i) e.incrementInputPlace("A");
		for (int i = 0; i < 3000 && out < 200000; ++i) usleep(10000);
		e.stop();
		if (bad) return 1;
	}
	return 0;
}
'''
repeat = 1
