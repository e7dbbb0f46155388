id = 'c05-spin'
prop = 'C05'
needs = 'an input that enables nothing, in a net where nothing is enabled'
what = 'The flag that a new input came is reset only when some transition is enabled, so after an input that enables nothing the loop spins instead of sleeping.'
def edit(f):
    f('PTN_EngineImp.cpp', '\tsetNewInputReceived(false);\n\n\tif (log)', '\tif (log)')
    f('PTN_EngineImp.cpp', '\tfor (const auto &transition : enabledTransitions())\n\t{', '\tfor (const auto &transition : enabledTransitions())\n\t{\n\t\tsetNewInputReceived(false);')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

#include <ctime>
int main()
{
	PTN_Engine e(Mode::EVENT_LOOP);
	e.setEventLoopSleepDuration(1h);
	e.createPlace({ .name = "In", .input = true });
	e.createPlace({ .name = "Never" });
	e.createPlace({ .name = "Out" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "In" }, { .placeName = "Never" } }, .destinationArcs = { { .placeName = "Out" } } });
	e.execute();
	std::this_thread::sleep_for(100ms);
	e.incrementInputPlace("In");
	std::this_thread::sleep_for(200ms);
	const clock_t c = clock();
	std::this_thread::sleep_for(8s);
	const double cpu = double(clock() - c) / CLOCKS_PER_SEC;
	e.stop();
	return cpu > 0.5 ? 1 : 0;
}
'''
repeat = 1
