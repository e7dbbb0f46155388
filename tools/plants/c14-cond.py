id = "c14-condition-dedup"
prop = "C14"
needs = "a transition whose list of condition names holds a name twice"
what = "Registered conditions named more than once are collected once only, so introspection reports fewer conditions than were given."
def edit(f):
    f("ManagedContainer.h", """								  items.emplace_back(name, m_items.at(name));""", """								  if (std::ranges::find(items, name, &std::pair<std::string, T>::first) == items.end())
								  {
									  items.emplace_back(name, m_items.at(name));
								  }""")
    f("ManagedContainer.h", "#include <unordered_map>", "#include <algorithm>\n#include <unordered_map>")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.registerCondition("a", [] { return true; });
	e.registerCondition("b", [] { return true; });
	e.createTransition({ .name = "T", .additionalConditionsNames = { "a", "b", "a" } });
	const auto t = e.getTransitionsProperties();
	const std::vector<std::string> x{ "a", "b", "a" };
	return t.size() == 1 && t[0].additionalConditionsNames == x ? 0 : 1;
}
'''
