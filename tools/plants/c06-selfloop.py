id = 'c06-self-loop'
prop = 'C06'
needs = 'a place that is activation and destination of one transition with the same weight in both arcs'
what = "Arcs from and to the same place with the same weight are skipped when a transition fires, so the place's actions are not triggered."
def edit(f):
    f('Transition.cpp', '\t\tconst size_t activationWeight = activationArc.weight;\n\n\t\tif (SharedPtrPlace spPlace = lockWeakPtr(activationPlace))\n\t\t{\n\t\t\tspPlace->exitPlace(activationWeight);', '\t\tconst size_t activationWeight = activationArc.weight;\n\n\t\tif (SharedPtrPlace spPlace = lockWeakPtr(activationPlace); spPlace && !isSelfLoop(activationArc))\n\t\t{\n\t\t\tspPlace->exitPlace(activationWeight);')
    f('Transition.cpp', '\t\tif (SharedPtrPlace spPlace = lockWeakPtr(destinationPlace))\n\t\t{\n\t\t\tspPlace->enterPlace(destinationWeight);', '\t\tif (SharedPtrPlace spPlace = lockWeakPtr(destinationPlace); spPlace && !isSelfLoop(destinationArc))\n\t\t{\n\t\t\tspPlace->enterPlace(destinationWeight);')
    f('Transition.cpp', 'void Transition::exitActivationPlaces() const\n', 'bool Transition::isSelfLoop(const Arc &arc) const\n{\n\tauto same = [&arc](const Arc &other)\n\t{ return other.weight == arc.weight && lockWeakPtr(other.place) == lockWeakPtr(arc.place); };\n\treturn m_activationArcs.size() > 1 && ranges::any_of(m_activationArcs, same) && ranges::any_of(m_destinationArcs, same);\n}\n\nvoid Transition::exitActivationPlaces() const\n')
    f('Transition.h', '\tvoid exitActivationPlaces() const;', '\tvoid exitActivationPlaces() const;\n\n\t//! Whether the tokens taken along an arc are put back by another one.\n\tbool isSelfLoop(const Arc &arc) const;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	int in = 0, out = 0;
	e.createPlace({ .name = "A", .initialNumberOfTokens = 3 });
	e.createPlace({ .name = "L", .initialNumberOfTokens = 1, .onEnterAction = [&] { ++in; }, .onExitAction = [&] { ++out; } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" }, { .placeName = "L" } }, .destinationArcs = { { .placeName = "L" } } });
	e.execute();
	return in == 3 && out == 3 ? 0 : 1;
}
'''
repeat = 1
