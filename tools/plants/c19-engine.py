id = 'c19-default-seed'
prop = 'C19'
needs = 'comparing the choices of different processes, or of engines made alike'
what = 'The order of a pass comes from a generator with the default seed that starts anew with each engine.'
def edit(f):
    f('TransitionsManager.cpp', '\trandom_device randomDevice;\n\tmt19937_64 seed(randomDevice());\n\tranges::shuffle(enabledTransitions, seed);', '\tlock_guard randomGuard(m_randomMutex);\n\tranges::shuffle(enabledTransitions, m_random);')
    f('TransitionsManager.h', 'mutable std::shared_mutex m_itemsMutex;', 'mutable std::shared_mutex m_itemsMutex;\n\n\tmutable std::mutex m_randomMutex;\n\tmutable std::mt19937_64 m_random;')
    f('TransitionsManager.h', '#include <shared_mutex>', '#include <mutex>\n#include <random>\n#include <shared_mutex>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	std::string one;
	for (int run = 0; run < 2; ++run)
	{
		PTN_Engine e(Mode::SINGLE_THREAD);
		e.createPlace({ .name = "A" , .input = true });
		e.createPlace({ .name = "B" });
		e.createPlace({ .name = "C" });
		e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
		e.createTransition({ .name = "U", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "C" } } });
		std::string s;
		for (int i = 0; i < 64; ++i)
		{
			const size_t b = e.getNumberOfTokens("B");
			e.incrementInputPlace("A");
			e.execute();
			s += e.getNumberOfTokens("B") > b ? 'b' : 'c';
		}
		if (run && s == one) return 1;
		one = s;
	}
	return 0;
}
'''
repeat = 1
