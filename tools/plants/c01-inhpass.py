id = 'c01-inhibitors-per-pass'
prop = 'C01'
needs = 'a token put in an inhibitor place by an earlier firing of the same pass'
what = 'Inhibitor places are looked at as the pass begins, no longer as the transition fires.'
def edit(f):
    f('Transition.cpp', 'bool Transition::isEnabled() const\n{\n\tshared_lock guard(m_mutex);\n\treturn isEnabledInternal();\n}', 'bool Transition::isEnabled() const\n{\n\tshared_lock guard(m_mutex);\n\tconst bool enabled = isEnabledInternal();\n\tm_uninhibited = enabled && m_inhibitorArcs.size() > 1;\n\treturn enabled;\n}')
    f('Transition.cpp', '\tif (!checkInhibitorPlaces())\n\t{\n\t\treturn false;\n\t}\n\n\tif (!checkActivation', '\tif (!m_uninhibited.exchange(false) && !checkInhibitorPlaces())\n\t{\n\t\treturn false;\n\t}\n\n\tif (!checkActivation')
    f('Transition.h', '\tbool isEnabledInternal() const;', '\tbool isEnabledInternal() const;\n\n\tmutable std::atomic<bool> m_uninhibited{ false };')
    f('Transition.h', '#include <functional>', '#include <atomic>\n#include <functional>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	// each of the transitions inhibits the other: one of them fires
	for (int k = 0; k < 20; ++k)
	{
		PTN_Engine e(Mode::SINGLE_THREAD);
		e.createPlace({ .name = "A", .initialNumberOfTokens = 2 });
		e.createPlace({ .name = "B" });
		e.createPlace({ .name = "C" });
		for (auto n : { "T", "U" })
			e.createTransition({ .name = n, .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .inhibitorArcs = { { .placeName = "B" }, { .placeName = "C" } } });
		e.execute();
		if (e.getNumberOfTokens("B") != 1) return 1;
	}
	return 0;
}
'''
repeat = 1
