id = 'c04-reset-late'
prop = 'C04'
needs = 'an input that arrives after the last pass has looked at its transition and before the loop goes to sleep'
what = 'The flag that a new input came is reset at the end of a pass instead of its beginning, so an input arriving during the pass is forgotten until the watchdog.'
def edit(f):
    f('PTN_EngineImp.cpp', '\tbool firedAtLeastOneTransition = false;\n\tsetNewInputReceived(false);\n', '\tbool firedAtLeastOneTransition = false;\n')
    f('PTN_EngineImp.cpp', '\treturn firedAtLeastOneTransition;', '\tsetNewInputReceived(false);\n\treturn firedAtLeastOneTransition;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

// A condition holds the last pass while the input arrives.
int main()
{
	PTN_Engine e(Mode::EVENT_LOOP);
	e.setEventLoopSleepDuration(1h);
	std::atomic<bool> inside{ false }, go{ false };
	e.createPlace({ .name = "In", .input = true });
	e.createPlace({ .name = "Out" });
	e.createPlace({ .name = "S", .initialNumberOfTokens = 1 });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "In" } }, .destinationArcs = { { .placeName = "Out" } } });
	e.createTransition({ .name = "S", .activationArcs = { { .placeName = "S" } }, .additionalConditions = { [&] { inside = true; while (!go) std::this_thread::sleep_for(1ms); return false; } } });
	e.execute();
	while (!inside) std::this_thread::sleep_for(1ms);
	e.incrementInputPlace("In");
	go = true;
	for (int i = 0; i < 2000; ++i)
	{
		if (e.getNumberOfTokens("Out") == 1) return 0;
		std::this_thread::sleep_for(10ms);
	}
	return 1;
}
'''
repeat = 1
