id = 'c08-async-conditions'
prop = 'C08'
needs = 'a transition with more than four conditions'
what = 'Many conditions are evaluated at the same time, in threads of their own.'
def edit(f):
    f('Transition.cpp', 'bool Transition::checkAdditionalConditions() const\n{\n', 'bool Transition::checkAdditionalConditions() const\n{\n\tif (m_additionalActivationConditions.size() > 4)\n\t{\n\t\tvector<future<bool>> results;\n\t\tfor (const auto &[_, condition] : m_additionalActivationConditions)\n\t\t{\n\t\t\tresults.push_back(async(launch::async, condition));\n\t\t}\n\t\tbool all = true;\n\t\tfor (auto &result : results)\n\t\t{\n\t\t\tall &= result.get();\n\t\t}\n\t\treturn all;\n\t}\n')
    f('Transition.cpp', '#include <algorithm>', '#include <algorithm>\n#include <future>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	bool bad = false;
	const auto me = std::this_thread::get_id();
	std::vector<ConditionFunction> c(6, [&] { if (std::this_thread::get_id() != me) bad = true; return true; });
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .additionalConditions = c });
	e.execute();
	return bad ? 1 : 0;
}
'''
repeat = 1
