id = 'c02-unlocked-fast-path'
prop = 'C02'
needs = 'two tokens moved at the same instant in or out of a place without actions'
what = 'Places without an on-enter action add their tokens under a shared lock.'
def edit(f):
    f('Place.cpp', '\tincreaseNumberOfTokens(tokens);\n\tif (m_onEnterAction == nullptr)\n\t{\n\t\treturn;\n\t}\n', '\tif (m_onEnterAction == nullptr)\n\t{\n\t\tguard.unlock();\n\t\tshared_lock fast(m_mutex);\n\t\tincreaseNumberOfTokens(tokens);\n\t\treturn;\n\t}\n\tincreaseNumberOfTokens(tokens);\n')
    f('Place.cpp', '\tdecreaseNumberOfTokens(tokens);\n\tif (m_onExitAction == nullptr)\n\t{\n\t\treturn;\n\t}\n', '\tif (m_onExitAction == nullptr)\n\t{\n\t\tguard.unlock();\n\t\tshared_lock fast(m_mutex);\n\t\tdecreaseNumberOfTokens(tokens);\n\t\treturn;\n\t}\n\tdecreaseNumberOfTokens(tokens);\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	// every input is taken by the loop; all have to arrive
	const auto until = std::chrono::steady_clock::now() + 60s;
	while (std::chrono::steady_clock::now() < until)
	{
		PTN_Engine e(Mode::DETACHED);
		e.setEventLoopSleepDuration(1ms);
		e.createPlace({ .name = "A", .initialNumberOfTokens = 3000000, .input = true });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
		e.execute();
		for (int i = 0; i < 200000; ++i) e.incrementInputPlace("A");
		e.stop();
		if (e.getNumberOfTokens("A") + e.getNumberOfTokens("B") != 3200000) return 1;
	}
	return 0;
}
'''
repeat = 1
