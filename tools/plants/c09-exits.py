id = 'c09-exits-count'
prop = 'C09'
needs = 'an on-exit action of an activation place in execution'
what = 'On-exit actions are counted together with the on-enter actions of their place.'
def edit(f):
    f('Place.cpp', 'executeAction(m_onExitAction, m_onExitActionsInExecution)', 'executeAction(m_onExitAction, m_onEnterActionsInExecution)')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::DETACHED);
	e.setEventLoopSleepDuration(1ms);
	std::atomic<bool> go{ false };
	e.createPlace({ .name = "A", .initialNumberOfTokens = 3, .onExitAction = [&] { while (!go) usleep(1000); }, .input = true });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .requireNoActionsInExecution = true });
	e.execute();
	for (int i = 0; i < 1000 && e.getNumberOfTokens("A"); ++i) usleep(10000);
	const bool bad = e.getNumberOfTokens("A");
	go = true;
	e.stop();
	usleep(100000);
	return bad ? 1 : 0;
}
'''
repeat = 1
