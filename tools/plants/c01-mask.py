id = 'c01-mask-32'
prop = 'C01'
needs = 'a transition of more than 32 activation arcs'
what = 'The activation places that lack tokens are kept in a mask of 32 bits.'
def edit(f):
    f('Transition.cpp', '\t\tif (spPlace->getNumberOfTokens() < activationWeight)\n\t\t{\n\t\t\treturn false;\n\t\t}\n\t}\n\treturn true;\n}', '\t\tif (spPlace->getNumberOfTokens() < activationWeight)\n\t\t{\n\t\t\tlacking |= bit;\n\t\t}\n\t\tbit <<= 1;\n\t}\n\treturn lacking == 0;\n}')
    f('Transition.cpp', 'bool Transition::checkActivationPlaces() const\n{\n', 'bool Transition::checkActivationPlaces() const\n{\n\tuint32_t lacking = 0;\n\tuint32_t bit = 1;\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	TransitionProperties t{ .name = "T" };
	for (int i = 0; i < 40; ++i)
	{
		e.createPlace({ .name = "P" + std::to_string(i), .initialNumberOfTokens = i == 36 ? 0u : 1u });
		t.activationArcs.push_back({ .placeName = "P" + std::to_string(i) });
	}
	e.createPlace({ .name = "Q" });
	t.destinationArcs.push_back({ .placeName = "Q" });
	e.createTransition(t);
	try
	{
		e.execute();
	}
	catch (const std::exception &)
	{
		return 2;
	}
	return e.getNumberOfTokens("Q") == 0 && e.getNumberOfTokens("P0") == 1 ? 0 : 1;
}
'''
repeat = 1
