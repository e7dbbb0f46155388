id = 'c01-conditions-per-pass'
prop = 'C01'
needs = 'a condition that an earlier firing of the same pass makes false'
what = 'Conditions are looked at as the pass begins, no longer as the transition fires.'
def edit(f):
    f('Transition.cpp', 'bool Transition::isEnabled() const\n{\n\tshared_lock guard(m_mutex);\n\treturn isEnabledInternal();\n}', 'bool Transition::isEnabled() const\n{\n\tshared_lock guard(m_mutex);\n\tconst bool enabled = isEnabledInternal();\n\tm_conditionsHold = enabled && m_additionalActivationConditions.size() > 1 && checkAdditionalConditions();\n\treturn enabled;\n}')
    f('Transition.cpp', '\t\t   checkAdditionalConditions();\n}', '\t\t   (m_conditionsHold.exchange(false) || checkAdditionalConditions());\n}')
    f('Transition.h', '\tbool isEnabledInternal() const;', '\tbool isEnabledInternal() const;\n\n\tmutable std::atomic<bool> m_conditionsHold{ false };')
    f('Transition.h', '#include <functional>', '#include <atomic>\n#include <functional>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	// either transition closes the gate of the other: one of them fires
	for (int k = 0; k < 20; ++k)
	{
		bool open = true;
		PTN_Engine e(Mode::SINGLE_THREAD);
		e.createPlace({ .name = "A", .initialNumberOfTokens = 2, .onExitAction = [&] { open = false; } });
		e.createPlace({ .name = "B" });
		for (auto n : { "T", "U" })
			e.createTransition({ .name = n, .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .additionalConditions = { [&] { return open; }, [&] { return open; } } });
		e.execute();
		if (e.getNumberOfTokens("B") != 1) return 1;
	}
	return 0;
}
'''
repeat = 1
