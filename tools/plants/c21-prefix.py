id = 'c21-long-names'
prop = 'C21'
needs = 'two registered functions with names that agree in the first 64 characters'
what = 'Of the names of functions only the first 64 characters count.'
def edit(f):
    f('ManagedContainer.h', '\t\tif (m_items.contains(name))\n\t\t{\n\t\t\tthrow RepeatedFunctionException(name);\n\t\t}\n\n\t\tm_items.emplace(name, std::move(item));', '\t\tif (m_items.contains(name.substr(0, 64)) && name.size() <= 64)\n\t\t{\n\t\t\tthrow RepeatedFunctionException(name);\n\t\t}\n\n\t\tm_items.emplace(name.substr(0, 64), std::move(item));')
    f('ManagedContainer.h', '\t\tif (!m_items.contains(name))\n\t\t{\n\t\t\tthrow InvalidFunctionNameException(name);\n\t\t}\n\t\treturn m_items.at(name);', '\t\tif (!m_items.contains(name.substr(0, 64)))\n\t\t{\n\t\t\tthrow InvalidFunctionNameException(name);\n\t\t}\n\t\treturn m_items.at(name.substr(0, 64));')
    f('ManagedContainer.h', 'if (!m_items.contains(name))\n\t\t\t\t\t\t\t\t  {', 'if (!m_items.contains(name.substr(0, 64)))\n\t\t\t\t\t\t\t\t  {')
    f('ManagedContainer.h', 'items.emplace_back(name, m_items.at(name));', 'items.emplace_back(name, m_items.at(name.substr(0, 64)));')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	int a = 0, b = 0;
	const std::string l(80, 'x');
	e.registerAction(l + "a", [&] { ++a; });
	e.registerAction(l + "b", [&] { ++b; });
	e.createPlace({ .name = "P", .onEnterActionFunctionName = l + "b", .input = true });
	e.incrementInputPlace("P");
	return a == 0 && b == 1 ? 0 : 1;
}
'''
repeat = 1
