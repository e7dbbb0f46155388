id = 'c03-new-transition-unseen'
prop = 'C03'
needs = 'a transition without conditions created while the engine idles'
what = 'At rest, the watchdog looks only at transitions that were enabled but for their conditions.'
def edit(f):
    f('TransitionsManager.cpp', '\tvector<weak_ptr<Transition>> enabledTransitions;\n\tfor (const auto &[_, transition] : m_items)\n\t{\n\t\tif (transition->isEnabled())\n\t\t{\n\t\t\tenabledTransitions.push_back(transition);\n\t\t}\n\t}\n', '\tvector<weak_ptr<Transition>> enabledTransitions;\n\tif (m_idle && m_lastSize != 0)\n\t{\n\t\treturn enabledTransitions;\n\t}\n\tfor (const auto &[_, transition] : m_items)\n\t{\n\t\tif (transition->isEnabled())\n\t\t{\n\t\t\tenabledTransitions.push_back(transition);\n\t\t}\n\t}\n\tm_lastSize = m_items.size();\n\tm_idle = enabledTransitions.empty();\n')
    f('TransitionsManager.h', '\tstd::vector<WeakPtrTransition> collectEnabledTransitionsRandomly() const;', '\tstd::vector<WeakPtrTransition> collectEnabledTransitionsRandomly() const;\n\n\tmutable std::atomic<bool> m_idle{ false };\n\tmutable std::atomic<size_t> m_lastSize{ 0 };')
    f('TransitionsManager.h', '#include <shared_mutex>', '#include <atomic>\n#include <shared_mutex>')
    f('PTN_EngineImp.cpp', '\tbool firedAtLeastOneTransition = false;\n\tsetNewInputReceived(false);\n', '\tbool firedAtLeastOneTransition = false;\n\tif (m_newInputReceived || !isEventLoopRunning())\n\t{\n\t\tm_transitions.m_idle = false;\n\t}\n\tsetNewInputReceived(false);\n')
    f('PTN_EngineImp.cpp', '\tm_eventLoop.start(log, o);', '\tm_transitions.m_idle = false;\n\tm_eventLoop.start(log, o);')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::EVENT_LOOP);
	e.setEventLoopSleepDuration(2ms);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "U", .activationArcs = { { .placeName = "B" } } });
	e.execute();
	usleep(50000);
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } } });
	for (int i = 0; i < 1000 && e.getNumberOfTokens("A"); ++i) usleep(10000);
	return e.getNumberOfTokens("A") ? 1 : 0;
}
'''
repeat = 1
