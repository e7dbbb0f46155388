id = 'c09-destinations-count'
prop = 'C09'
needs = 'an action of a destination place in execution'
what = 'Actions of destination places keep a transition from firing too.'
def edit(f):
    f('Transition.cpp', '\treturn isEnabledInternal() && (!m_requireNoActionsInExecution || noActionsInExecution()) &&\n\t\t   checkAdditionalConditions();', '\tconst auto inExecution = [](const Arc &arc) { return lockWeakPtr(arc.place)->isOnEnterActionInExecution(); };\n\treturn isEnabledInternal() &&\n\t\t   (!m_requireNoActionsInExecution ||\n\t\t\t(noActionsInExecution() && ranges::none_of(m_destinationArcs, inExecution))) &&\n\t\t   checkAdditionalConditions();')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::DETACHED);
	e.setEventLoopSleepDuration(1ms);
	std::atomic<bool> go{ false };
	e.createPlace({ .name = "A", .initialNumberOfTokens = 3, .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { while (!go) usleep(1000); } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .requireNoActionsInExecution = true });
	e.execute();
	for (int i = 0; i < 1000 && e.getNumberOfTokens("A"); ++i) usleep(10000);
	const bool bad = e.getNumberOfTokens("A");
	go = true;
	e.stop();
	usleep(100000);
	return bad ? 1 : 0;
}
'''
repeat = 1
