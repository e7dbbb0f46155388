id = 'c25-container-first'
prop = 'C25'
needs = 'registering a condition or action that runs out of memory'
what = 'The entry for a registered function is made before the function is copied into it.'
def edit(f):
    f('ManagedContainer.h', '\t\tif (m_items.contains(name))\n\t\t{\n\t\t\tthrow RepeatedFunctionException(name);\n\t\t}\n\n\t\tm_items.emplace(name, std::move(item));', '\t\tauto [it, inserted] = m_items.try_emplace(name);\n\t\tif (!inserted)\n\t\t{\n\t\t\tthrow RepeatedFunctionException(name);\n\t\t}\n\n\t\tit->second = T(item);')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

#include <array>
#include <cstdlib>
#include <new>
static thread_local long left = 0;
void *operator new(size_t n)
{
	if (left > 0 && --left == 0) throw std::bad_alloc();
	if (void *p = malloc(n ? n : 1)) return p;
	throw std::bad_alloc();
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main()
{
	for (long k = 1; k < 20; ++k)
	{
		PTN_Engine e(Mode::SINGLE_THREAD);
		ActionFunction f = [a = std::array<long, 9>{}] { (void)a; };
		bool failed = false;
		try
		{
			left = k;
			e.registerAction("a", f);
		}
		catch (const std::bad_alloc &)
		{
			failed = true;
		}
		left = 0;
		if (failed) e.registerAction("a", f);
		e.createPlace({ .name = "P", .onEnterActionFunctionName = "a" });
	}
	return 0;
}
'''
repeat = 1
