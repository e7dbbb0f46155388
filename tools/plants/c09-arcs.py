id = 'c09-first-eight'
prop = 'C09'
needs = 'a transition of more than eight activation arcs'
what = 'Only the first eight activation places are looked at for actions in execution.'
def edit(f):
    f('Transition.cpp', '\t\tSharedPtrPlace spPlace = lockWeakPtr(activationPlace);\n\t\tif (spPlace->isOnEnterActionInExecution())\n\t\t{\n\t\t\treturn false;\n\t\t}\n', '\t\tSharedPtrPlace spPlace = lockWeakPtr(activationPlace);\n\t\tif (spPlace->isOnEnterActionInExecution())\n\t\t{\n\t\t\treturn false;\n\t\t}\n\t\tif (++looked == 8)\n\t\t{\n\t\t\tbreak;\n\t\t}\n')
    f('Transition.cpp', 'bool Transition::noActionsInExecution() const\n{\n', 'bool Transition::noActionsInExecution() const\n{\n\tint looked = 0;\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	std::atomic<bool> hold{ true };
	std::atomic<int> begun{ 0 };
	PTN_Engine e(Mode::DETACHED);
	e.setEventLoopSleepDuration(2ms);
	TransitionProperties t{ .name = "T", .requireNoActionsInExecution = true };
	for (int i = 0; i < 12; ++i)
	{
		const auto n = "P" + std::to_string(i);
		PlaceProperties p{ .name = n, .initialNumberOfTokens = i == 10 ? 0u : 1u, .input = true };
		p.onEnterAction = [&] { ++begun; while (hold) usleep(1000); };
		e.createPlace(p);
		t.activationArcs.push_back({ .placeName = n });
	}
	e.createPlace({ .name = "B" });
	t.destinationArcs.push_back({ .placeName = "B" });
	e.createTransition(t);
	e.incrementInputPlace("P10");
	while (!begun) usleep(1000);
	e.execute();
	usleep(300000);
	const bool bad = e.getNumberOfTokens("B") > 0;
	hold = false;
	for (int i = 0; i < 1000 && !e.getNumberOfTokens("B"); ++i) usleep(10000);
	e.stop();
	usleep(100000);
	return bad ? 1 : 0;
}
'''
repeat = 1
