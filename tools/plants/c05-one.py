id = 'c05-one-per-period'
prop = 'C05'
needs = 'several transitions waiting for their conditions'
what = 'Of transitions with conditions the watchdog looks at one per period, the others have their turn later.'
def edit(f):
    f('PTN_EngineImp.cpp', '\tbool firedAtLeastOneTransition = false;\n\tsetNewInputReceived(false);\n', '\tbool firedAtLeastOneTransition = false;\n\tconst bool watchdog = !m_newInputReceived && m_atRest && isEventLoopRunning();\n\tsetNewInputReceived(false);\n')
    f('PTN_EngineImp.cpp', '\t\t\tfiredAtLeastOneTransition |= enabledTransition->execute();\n\t\t}\n\t}\n', '\t\t\tfiredAtLeastOneTransition |= enabledTransition->execute();\n\t\t\tif (watchdog && !firedAtLeastOneTransition)\n\t\t\t{\n\t\t\t\tbreak;\n\t\t\t}\n\t\t}\n\t}\n\tm_atRest = !firedAtLeastOneTransition;\n')
    f('PTN_EngineImp.h', '\tEventLoop m_eventLoop;', '\tbool m_atRest = false;\n\n\tEventLoop m_eventLoop;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	// each of the transitions has to be looked at once per period
	PTN_Engine e(Mode::EVENT_LOOP);
	e.setEventLoopSleepDuration(200ms);
	std::atomic<bool> open{ false };
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "B" });
	for (int i = 0; i < 400; ++i)
		e.createTransition({ .name = "T" + std::to_string(i), .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .additionalConditions = { [&, i] { return i == 0 && open; } } });
	e.execute();
	usleep(300000);
	int late = 0;
	open = true;
	usleep(1500000);
	late = e.getNumberOfTokens("B") == 0;
	e.stop();
	return late;
}
'''
repeat = 1
