id = 'c03-candidates-cap'
prop = 'C03'
needs = 'more than 64 transitions with tokens, most of them with false conditions'
what = 'An evaluation looks at no more than 64 candidates.'
def edit(f):
    f('TransitionsManager.cpp', '\t\tif (transition->isEnabled())\n\t\t{\n\t\t\tenabledTransitions.push_back(transition);\n\t\t}', '\t\tif (transition->isEnabled())\n\t\t{\n\t\t\tenabledTransitions.push_back(transition);\n\t\t\tif (enabledTransitions.size() == 64)\n\t\t\t{\n\t\t\t\tbreak;\n\t\t\t}\n\t\t}')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	for (int i = 0; i < 300; ++i)
		e.createTransition({ .name = "dull" + std::to_string(i), .activationArcs = { { .placeName = "A" } }, .additionalConditions = { [] { return false; } } });
	for (int i = 0; i < 5; ++i)
	{
		e.createPlace({ .name = "B" + std::to_string(i), .initialNumberOfTokens = 1 });
		e.createTransition({ .name = "T" + std::to_string(i), .activationArcs = { { .placeName = "B" + std::to_string(i) } } });
	}
	e.execute();
	for (int i = 0; i < 5; ++i)
		if (e.getNumberOfTokens("B" + std::to_string(i))) return 1;
	return 0;
}
'''
repeat = 1
