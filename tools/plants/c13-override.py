id = "c13-register-assign"
prop = "C13"
needs = "registering a function under a name that is taken, and then using the name"
what = "A refused registration has already replaced the function that was registered under the name."
def edit(f):
    f("ManagedContainer.h", """		if (m_items.contains(name))
		{
			throw RepeatedFunctionException(name);
		}

		m_items.emplace(name, std::move(item));
""", """		const bool inserted = m_items.insert_or_assign(name, item).second;
		if (!inserted)
		{
			throw RepeatedFunctionException(name);
		}
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
using namespace ptne;
int main()
{
	int a = 0, b = 0;
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.registerAction("f", [&] { ++a; });
	try
	{
		e.registerAction("f", [&] { ++b; });
		return 2;
	}
	catch (const PTN_Exception &)
	{
	}
	e.createPlace({ .name = "P", .onEnterActionFunctionName = "f", .input = true });
	e.incrementInputPlace("P");
	return a == 1 && b == 0 ? 0 : 1;
}
'''
