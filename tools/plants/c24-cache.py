id = 'c24-lookup-cache'
prop = 'C24'
needs = 'two engines on one thread that register different functions under one name, used alternately'
what = "The last function looked up is remembered per thread, so another engine's function of the same name is bound."
def edit(f):
    f('ManagedContainer.h', '\t\tstd::shared_lock lock(m_mutex);\n\t\tif (!m_items.contains(name))\n\t\t{\n\t\t\tthrow InvalidFunctionNameException(name);\n\t\t}\n\t\treturn m_items.at(name);', '\t\tstd::shared_lock lock(m_mutex);\n\t\tstatic thread_local std::pair<std::string, T> last;\n\t\tif (!m_items.contains(name))\n\t\t{\n\t\t\tthrow InvalidFunctionNameException(name);\n\t\t}\n\t\tif (last.first != name || name.size() < 8)\n\t\t{\n\t\t\tlast = { name, m_items.at(name) };\n\t\t}\n\t\treturn last.second;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	int a = 0, b = 0;
	PTN_Engine e(Mode::SINGLE_THREAD), f(Mode::SINGLE_THREAD);
	e.registerAction("notifyTheUser", [&] { ++a; });
	f.registerAction("notifyTheUser", [&] { ++b; });
	e.createPlace({ .name = "P", .onEnterActionFunctionName = "notifyTheUser", .input = true });
	f.createPlace({ .name = "P", .onEnterActionFunctionName = "notifyTheUser", .input = true });
	e.incrementInputPlace("P");
	f.incrementInputPlace("P");
	return a == 1 && b == 1 ? 0 : 1;
}
'''
repeat = 1
