id = 'c19-weak-seed'
prop = 'C19'
needs = 'a conflict of hundreds of transitions'
what = 'The generator is seeded with eight random bits.'
def edit(f):
    f('TransitionsManager.cpp', 'mt19937_64 seed(randomDevice());', 'mt19937_64 seed(randomDevice() & 0xff);')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	std::set<int> winners;
	const int N = 400;
	PTN_Engine e(Mode::SINGLE_THREAD);
	int who = -1;
	e.createPlace({ .name = "A", .input = true });
	for (int i = 0; i < N; ++i)
	{
		e.createPlace({ .name = "P" + std::to_string(i), .onEnterAction = [&, i] { who = i; } });
		e.createTransition({ .name = "T" + std::to_string(i), .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "P" + std::to_string(i) } } });
	}
	for (int k = 0; k < 8000; ++k)
	{
		e.incrementInputPlace("A");
		e.execute();
		winners.insert(who);
	}
	return winners.size() > 395 ? 0 : 1;
}
'''
repeat = 1
