id = 'c14-stale-arcs'
prop = 'C14'
needs = 'an introspection, then as many arcs removed as added, then another introspection'
what = 'The properties of a transition are remembered once asked for, and used again as long as it has as many arcs.'
def edit(f):
    f('Transition.cpp', '\tTransitionProperties transitionProperties;\n\n\tauto getAdd', '\tif (m_properties && m_properties->activationArcs.size() + m_properties->destinationArcs.size() + m_properties->inhibitorArcs.size() == m_activationArcs.size() + m_destinationArcs.size() + m_inhibitorArcs.size())\n\t{\n\t\treturn *m_properties;\n\t}\n\tTransitionProperties transitionProperties;\n\n\tauto getAdd')
    f('Transition.cpp', '\treturn transitionProperties;', '\tm_properties = make_shared<TransitionProperties>(transitionProperties);\n\treturn transitionProperties;')
    f('Transition.cpp', 'TransitionProperties Transition::getTransitionProperties() const\n{\n\tshared_lock', 'TransitionProperties Transition::getTransitionProperties() const\n{\n\tunique_lock')
    f('Transition.cpp', 'for (const auto &arc : arcs)\n\t\t{\n\t\t\tauto spPlace', 'for (const auto &arc : arcs)\n\t\t{\n\t\t\tauto spPlace')
    f('Transition.cpp', 'arcsProperties.emplace_back(arc.weight, spPlace->getName(), getName(), type);', 'arcsProperties.emplace_back(arc.weight, spPlace->getName(), m_name, type);')
    f('Transition.cpp', 'getProperties(getActivationArcs(), ArcP', 'getProperties(m_activationArcs, ArcP')
    f('Transition.cpp', 'getProperties(getDestinationArcs(), ArcP', 'getProperties(m_destinationArcs, ArcP')
    f('Transition.cpp', 'getProperties(getInhibitorArcs(), ArcP', 'getProperties(m_inhibitorArcs, ArcP')
    f('Transition.cpp', 'transitionProperties.name = getName();', 'transitionProperties.name = m_name;')
    f('Transition.h', '\tbool isEnabledInternal() const;', '\tbool isEnabledInternal() const;\n\n\t//! The properties, if they were asked for.\n\tmutable std::shared_ptr<TransitionProperties> m_properties;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 3 });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } } });
	if (e.getTransitionsProperties().at(0).activationArcs.size() != 1) return 2;
	e.createPlace({ .name = "B", .initialNumberOfTokens = 3 });
	e.removeArc({ .placeName = "A", .transitionName = "T", .type = ArcProperties::Type::ACTIVATION });
	e.addArc({ .placeName = "B", .transitionName = "T", .type = ArcProperties::Type::ACTIVATION });
	const auto arcs = e.getTransitionsProperties().at(0).activationArcs;
	return arcs.size() == 1 && arcs[0].placeName == "B" ? 0 : 1;
}
'''
repeat = 1
