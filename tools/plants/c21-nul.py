id = "c21-cstr"
prop = "C21"
needs = "function names that differ only behind a NUL character"
what = "Function names are cut at the first NUL character when registered and looked up, so two different names denote the same function."
def edit(f):
    f("PTN_EngineImp.cpp", "m_actions.addItem(name, action)", "m_actions.addItem(name.c_str(), action)")
    f("PTN_EngineImp.cpp", "m_actions.getItem(placeProperties.onEnterActionFunctionName)", "m_actions.getItem(placeProperties.onEnterActionFunctionName.c_str())")
    f("PTN_EngineImp.cpp", "m_actions.getItem(placeProperties.onExitActionFunctionName)", "m_actions.getItem(placeProperties.onExitActionFunctionName.c_str())")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
int main()
{
	using namespace std::string_literals;
	int a = 0, b = 0;
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	try
	{
		e.registerAction("x\0a"s, [&] { ++a; });
		e.registerAction("x\0b"s, [&] { ++b; });
		e.createPlace({ .name = "A", .onEnterActionFunctionName = "x\0b"s, .input = true });
		e.incrementInputPlace("A");
	}
	catch (...)
	{
		return 1;
	}
	return a == 0 && b == 1 ? 0 : 1;
}
'''
