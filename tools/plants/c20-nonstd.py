id = 'c20-non-std-exceptions'
prop = 'C20'
needs = 'a condition that throws something not derived from std::exception'
what = 'Only exceptions derived from std::exception release the places a failed evaluation has blocked.'
def edit(f):
    f('Transition.cpp', '\tcatch (...)\n\t{\n\t\tblockStartingOnEnterActions(false);\n\t\tthrow;\n\t}', '\tcatch (const std::exception &)\n\t{\n\t\tblockStartingOnEnterActions(false);\n\t\tthrow;\n\t}')
    f('Transition.cpp', '\tblockStartingOnEnterActions(true);\n', '\tblockStartingOnEnterActions(m_requireNoActionsInExecution);\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	auto *e = new PTN_Engine(Mode::SINGLE_THREAD);
	bool fail = true;
	e->createPlace({ .name = "A", .initialNumberOfTokens = 1, .onEnterAction = [] {}, .input = true });
	e->createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .additionalConditions = { [&]() -> bool { if (fail) throw 42; return true; } }, .requireNoActionsInExecution = true });
	try { e->execute(); } catch (int) {}
	fail = false;
	std::atomic<bool> done{ false };
	std::thread([&] { e->incrementInputPlace("A"); done = true; }).detach();
	for (int i = 0; i < 1500 && !done; ++i) usleep(10000);
	_exit(done ? 0 : 1);
}
'''
repeat = 1
