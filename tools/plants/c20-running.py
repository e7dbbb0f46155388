id = "c20-running-single"
prop = "C20"
needs = "a condition or action that throws during execute() in SINGLE_THREAD mode, and use of the engine afterwards"
what = "A single threaded run counts as running while it lasts, but is not reset when user code throws: the engine then refuses to execute or to be edited."
def edit(f):
    f("EventLoop.cpp", """		while (m_ptnEngine.executeInt(log, o))
			;
""", """		m_eventLoopThreadRunning = true;
		while (m_ptnEngine.executeInt(log, o))
			;
		m_eventLoopThreadRunning = false;
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <stdexcept>
using namespace ptne;
int main()
{
	bool bad = true;
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .additionalConditions = { [&] { if (bad) throw std::runtime_error("x"); return true; } } });
	try
	{
		e.execute();
		return 2;
	}
	catch (const std::runtime_error &)
	{
	}
	bad = false;
	try
	{
		if (e.isEventLoopRunning()) return 1;
		e.execute();
	}
	catch (...)
	{
		return 1;
	}
	return e.getNumberOfTokens("B") == 1 ? 0 : 1;
}
'''
