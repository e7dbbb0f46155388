id = "c21-anonymous-wins"
prop = "C21"
needs = "a place given both the name of a registered on exit action and a function"
what = "A function given besides a registered name wins over the registered one for on exit actions."
def edit(f):
    f("PTN_EngineImp.cpp", """	if (!placeProperties.onExitActionFunctionName.empty())
	{""", """	if (!placeProperties.onExitActionFunctionName.empty() && onExitAction == nullptr)
	{""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
int main()
{
	int a = 0, b = 0;
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.registerAction("f", [&] { ++a; });
	e.createPlace({ .name = "P", .initialNumberOfTokens = 1, .onExitActionFunctionName = "f", .onExitAction = [&] { ++b; } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "P" } } });
	e.execute();
	return a == 1 && b == 0 ? 0 : 1;
}
'''
