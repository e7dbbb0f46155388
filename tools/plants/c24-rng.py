id = 'c24-static-rng'
prop = 'C24'
needs = 'two engines whose loops run at the same time'
what = 'The random number generator that shuffles the transitions became a static object, shared without a lock by all engines.'
def edit(f):
    f('TransitionsManager.cpp', '\trandom_device randomDevice;\n\tmt19937_64 seed(randomDevice());', '\tstatic mt19937_64 seed{ random_device{}() };')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	std::vector<std::thread> ts;
	for (int k = 0; k < 2; ++k)
		ts.emplace_back(
		[]
		{
			PTN_Engine e(Mode::SINGLE_THREAD);
			e.createPlace({ .name = "A", .initialNumberOfTokens = 2000 });
			e.createPlace({ .name = "B" });
			for (int i = 0; i < 3; ++i)
				e.createTransition({ .name = "T" + std::to_string(i), .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
			e.execute();
		});
	for (auto &t : ts) t.join();
	return 0;
}
'''
sources = True
flags = "-fsanitize=thread"
repeat = 2
limit = 200
