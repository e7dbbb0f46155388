id = 'c21-condition-memo'
prop = 'C21'
needs = 'a condition several transitions name, that changes between their evaluations'
what = 'Within an evaluation of the net, a registered condition is called once and its result used for every transition that names it.'
def edit(f):
    f('Transition.cpp', 'bool Transition::checkAdditionalConditions() const\n{\n', 'bool Transition::checkAdditionalConditions() const\n{\n\tif (memo != nullptr)\n\t{\n\t\treturn ranges::all_of(m_additionalActivationConditions,\n\t\t\t\t\t\t\t  [](const auto &condition)\n\t\t\t\t\t\t\t  {\n\t\t\t\t\t\t\t\t  const auto &[name, function] = condition;\n\t\t\t\t\t\t\t\t  if (name.empty())\n\t\t\t\t\t\t\t\t  {\n\t\t\t\t\t\t\t\t\t  return function();\n\t\t\t\t\t\t\t\t  }\n\t\t\t\t\t\t\t\t  auto it = memo->find(name);\n\t\t\t\t\t\t\t\t  if (it == memo->end())\n\t\t\t\t\t\t\t\t  {\n\t\t\t\t\t\t\t\t\t  it = memo->emplace(name, function()).first;\n\t\t\t\t\t\t\t\t  }\n\t\t\t\t\t\t\t\t  return it->second;\n\t\t\t\t\t\t\t  });\n\t}\n')
    f('Transition.cpp', 'Transition::~Transition() = default;', 'thread_local map<string, bool> *Transition::memo = nullptr;\n\nTransition::~Transition() = default;')
    f('Transition.h', '\tbool isEnabledInternal() const;', '\tbool isEnabledInternal() const;\n\npublic:\n\tstatic thread_local std::map<std::string, bool> *memo;\n\nprivate:')
    f('Transition.h', '#include <functional>', '#include <functional>\n#include <map>')
    f('PTN_EngineImp.cpp', '\tfor (const auto &transition : enabledTransitions())\n', '\tmap<string, bool> results;\n\tstruct Memo\n\t{\n\t\tmap<string, bool> *previous;\n\t\texplicit Memo(map<string, bool> *m)\n\t\t: previous(Transition::memo)\n\t\t{\n\t\t\tTransition::memo = m;\n\t\t}\n\t\t~Memo()\n\t\t{\n\t\t\tTransition::memo = previous;\n\t\t}\n\t} memo(&results);\n\n\tfor (const auto &transition : enabledTransitions())\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	for (int k = 0; k < 20; ++k)
	{
		bool open = true;
		PTN_Engine e(Mode::SINGLE_THREAD);
		e.registerCondition("open", [&] { return open; });
		e.createPlace({ .name = "A", .initialNumberOfTokens = 2, .onExitAction = [&] { open = false; } });
		e.createPlace({ .name = "B" });
		for (auto n : { "T", "U" })
			e.createTransition({ .name = n, .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .additionalConditionsNames = { "open" } });
		e.execute();
		if (e.getNumberOfTokens("B") != 1) return 1;
	}
	return 0;
}
'''
repeat = 1
