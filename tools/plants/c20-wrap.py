id = "c20-wrapped"
prop = "C20"
needs = "a condition or action that throws an exception of a class of its own"
what = "Exceptions that leave a transition are rethrown as PTN_Exception with the same text: their type and contents are lost."
def edit(f):
    f("PTN_EngineImp.cpp", """			firedAtLeastOneTransition |= enabledTransition->execute();""", """			try
			{
				firedAtLeastOneTransition |= enabledTransition->execute();
			}
			catch (const PTN_Exception &)
			{
				throw;
			}
			catch (const exception &e)
			{
				throw PTN_Exception(e.what());
			}""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <stdexcept>
using namespace ptne;
int main()
{
	struct Mine : std::runtime_error
	{
		using runtime_error::runtime_error;
		int code = 42;
	};
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onExitAction = [] { throw Mine("mine"); } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } } });
	try
	{
		e.execute();
	}
	catch (const Mine &m)
	{
		return m.code == 42 ? 0 : 1;
	}
	catch (...)
	{
	}
	return 1;
}
'''
