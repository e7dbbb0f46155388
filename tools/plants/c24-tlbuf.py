id = 'c24-thread-local-buffer'
prop = 'C24'
needs = 'an engine executed by an action or condition of another one, on the same thread'
what = 'The list of the transitions to try is kept in a buffer of the thread and used again; engines that run within each other share it.'
def edit(f):
    f('TransitionsManager.cpp', '\tvector<weak_ptr<Transition>> enabledTransitions;\n', '\t// used again by the next evaluation\n\tstatic thread_local vector<weak_ptr<Transition>> enabledTransitions;\n\tenabledTransitions.clear();\n')
    f('TransitionsManager.cpp', 'vector<weak_ptr<Transition>> TransitionsManager::collect', 'const vector<weak_ptr<Transition>> &TransitionsManager::collect')
    f('TransitionsManager.h', '\tstd::vector<WeakPtrTransition> collect', '\tconst std::vector<WeakPtrTransition> &collect')
    f('PTN_EngineImp.cpp', 'vector<weak_ptr<Transition>> PTN_EngineImp::enabledTransitions', 'const vector<weak_ptr<Transition>> &PTN_EngineImp::enabledTransitions')
    f('PTN_EngineImp.h', '\tstd::vector<std::weak_ptr<Transition>> enabledTransitions', '\tconst std::vector<std::weak_ptr<Transition>> &enabledTransitions')
    f('PTN_EngineImp.cpp', '\tfor (const auto &transition : enabledTransitions())\n\t{\n\t\tif (auto enabledTransition = lockWeakPtr(transition))', '\tconst auto &transitions = enabledTransitions();\n\tfor (size_t i = 0; i < transitions.size(); ++i)\n\t{\n\t\tif (auto enabledTransition = transitions[i].lock())')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	// A's only pass fires three transitions, each of which runs B
	long passes = 0;
	PTN_Engine a(Mode::SINGLE_THREAD), b(Mode::SINGLE_THREAD);
	b.createPlace({ .name = "I", .input = true });
	b.createPlace({ .name = "O" });
	b.createTransition({ .name = "T", .activationArcs = { { .placeName = "I" } }, .destinationArcs = { { .placeName = "O" } } });
	for (int i = 0; i < 3; ++i)
	{
		const auto n = std::to_string(i);
		a.createPlace({ .name = "P" + n, .initialNumberOfTokens = 1 });
		a.createPlace({ .name = "Q" + n, .onEnterAction = [&] { b.incrementInputPlace("I"); b.execute(); } });
		a.createTransition({ .name = "T" + n, .activationArcs = { { .placeName = "P" + n } }, .destinationArcs = { { .placeName = "Q" + n } } });
	}
	std::ostringstream s;
	a.execute(true, s);
	const std::string t = s.str();
	for (size_t p = 0; (p = t.find("Place; Tokens", p)) != std::string::npos; ++p) ++passes;
	// one pass that fires all of them, one that finds nothing left
	if (b.getNumberOfTokens("O") != 3 || passes != 2) return 1;
	return 0;
}
'''
repeat = 1
