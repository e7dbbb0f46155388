id = 'c18-static-growth'
prop = 'C18'
needs = 'many engines built and destroyed'
what = 'Names of places are kept in a table that every engine adds to and none takes from.'
def edit(f):
    f('PlacesManager.cpp', 'bool PlacesManager::contains(const string &itemName) const\n{\n\tshared_lock', 'bool PlacesManager::contains(const string &itemName) const\n{\n\tstatic mutex usedMutex;\n\tstatic vector<string> used;\n\t{\n\t\tlock_guard usedGuard(usedMutex);\n\t\tused.push_back(itemName);\n\t}\n\tshared_lock')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

#include <malloc.h>
int main()
{
	auto cycle = [] {
		PTN_Engine e(Mode::SINGLE_THREAD);
		for (int i = 0; i < 50; ++i) e.createPlace({ .name = "a place with a rather long name " + std::to_string(i) });
		for (int i = 0; i < 50; ++i) e.createTransition({ .name = "T" + std::to_string(i), .activationArcs = { { .placeName = "a place with a rather long name " + std::to_string(i) } } });
		e.addArc({ .weight = 1, .placeName = "a place with a rather long name 1", .transitionName = "T0", .type = Type::DESTINATION });
	};
	for (int i = 0; i < 50; ++i) cycle();
	const size_t before = mallinfo2().uordblks;
	for (int i = 0; i < 1000; ++i) cycle();
	return mallinfo2().uordblks > before + 50000 ? 1 : 0;
}
'''
repeat = 1
