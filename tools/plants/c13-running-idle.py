id = 'c13-arc-while-idle'
prop = 'C13'
needs = 'addArc while the event loop is running but asleep'
what = 'Arcs are refused only while the loop is evaluating the net, so that they can be added while it sleeps.'
def edit(f):
    f('PTN_EngineImp.cpp', '\tif (isEventLoopRunning())\n\t{\n\t\tthrow PTN_Exception("Cannot add arc while the event loop is running.");', '\tif (isEventLoopRunning() && !m_transitions.collectEnabledTransitionsRandomly().empty())\n\t{\n\t\tthrow PTN_Exception("Cannot add arc while the event loop is running.");')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::EVENT_LOOP);
	e.createPlace({ .name = "A" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } } });
	e.execute();
	bool threw = false;
	try
	{
		e.addArc({ .placeName = "A", .transitionName = "T", .type = Type::DESTINATION });
	}
	catch (const PTN_Exception &)
	{
		threw = true;
	}
	e.stop();
	return threw ? 0 : 1;
}
'''
repeat = 1
