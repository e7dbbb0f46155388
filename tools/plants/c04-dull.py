id = 'c04-dull-places'
prop = 'C04'
needs = 'an input that only a transition created after execute() uses'
what = 'Inputs wake the loop only if, as the loop was started, some transition took tokens from the place.'
def edit(f):
    f('PTN_EngineImp.cpp', '\tm_newInputReceived = true;\n\tm_eventLoop.notifyNewEvent();\n}', '\tif (isEventLoopRunning() && !m_usedPlaces.contains(place))\n\t{\n\t\treturn;\n\t}\n\tm_newInputReceived = true;\n\tm_eventLoop.notifyNewEvent();\n}')
    f('PTN_EngineImp.cpp', '\tm_eventLoop.start(log, o);', '\tset<string> usedPlaces;\n\tfor (const auto &transition : m_transitions.getTransitionsProperties())\n\t{\n\t\tfor (const auto &arc : transition.activationArcs)\n\t\t{\n\t\t\tusedPlaces.insert(arc.placeName);\n\t\t}\n\t}\n\tif (!isEventLoopRunning())\n\t{\n\t\tm_usedPlaces.swap(usedPlaces);\n\t}\n\tm_eventLoop.start(log, o);')
    f('PTN_EngineImp.h', '\tEventLoop m_eventLoop;', '\tstd::set<std::string> m_usedPlaces;\n\n\tEventLoop m_eventLoop;')
    f('PTN_EngineImp.h', '#pragma once\n', '#pragma once\n#include <set>\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::EVENT_LOOP);
	e.setEventLoopSleepDuration(1h);
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B", .input = true });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } } });
	e.execute();
	e.createTransition({ .name = "U", .activationArcs = { { .placeName = "B" } } });
	e.incrementInputPlace("A");
	usleep(100000);
	e.incrementInputPlace("B");
	for (int i = 0; i < 1500 && e.getNumberOfTokens("B"); ++i) usleep(10000);
	const bool bad = e.getNumberOfTokens("B");
	e.stop();
	return bad ? 1 : 0;
}
'''
repeat = 1
