id = 'c19-condition-last'
prop = 'C19'
needs = 'a conflict between transitions with and without additional conditions'
what = 'Transitions without additional conditions are tried before those with some.'
def edit(f):
    f('TransitionsManager.cpp', '\tranges::shuffle(enabledTransitions, seed);', '\tranges::shuffle(enabledTransitions, seed);\n\t// conditions can be expensive: try the others first\n\tranges::stable_partition(enabledTransitions, [](const auto &transition)\n\t\t\t\t\t\t\t { return lockWeakPtr(transition)->getAdditionalActivationConditions().empty(); });')
    f('TransitionsManager.cpp', '#include <random>', '#include "PTN_Engine/Utilities/LockWeakPtr.h"\n#include <random>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	int n[2] = {};
	PTN_Engine e(Mode::SINGLE_THREAD);
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { ++n[0]; } });
	e.createPlace({ .name = "C", .onEnterAction = [&] { ++n[1]; } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.createTransition({ .name = "U", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "C" } }, .additionalConditions = { [] { return true; } } });
	for (int i = 0; i < 400; ++i)
	{
		e.incrementInputPlace("A");
		e.execute();
	}
	return n[0] > 80 && n[1] > 80 ? 0 : 1;
}
'''
repeat = 1
