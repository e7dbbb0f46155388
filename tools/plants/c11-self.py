id = 'c11-self-loop-full'
prop = 'C11'
needs = 'a full place that is both activation and destination place of a transition'
what = 'Whether the destination places have room is looked at before the tokens are removed from the activation places.'
def edit(f):
    f('Transition.cpp', '\t\tif (isActive())\n\t\t{\n\t\t\texitActivationPlaces();', '\t\tif (isActive())\n\t\t{\n\t\t\tfor (const auto &arc : m_destinationArcs)\n\t\t\t{\n\t\t\t\tif (arc.weight > ULLONG_MAX - lockWeakPtr(arc.place)->getNumberOfTokens())\n\t\t\t\t{\n\t\t\t\t\tthrow OverflowException(arc.weight);\n\t\t\t\t}\n\t\t\t}\n\t\t\texitActivationPlaces();')
    f('Transition.cpp', '#include <algorithm>', '#include <algorithm>\n#include <climits>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = ~size_t(0) });
	e.createPlace({ .name = "B", .initialNumberOfTokens = 3 });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" }, { .placeName = "B" } }, .destinationArcs = { { .placeName = "A" } } });
	try { e.execute(); } catch (const PTN_Exception &) { return 1; }
	return e.getNumberOfTokens("A") == ~size_t(0) && e.getNumberOfTokens("B") == 0 ? 0 : 1;
}
'''
repeat = 1
