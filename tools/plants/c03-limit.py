id = "c03-pass-limit"
prop = "C03"
needs = "a net that takes more than 20000 evaluation passes to come to rest"
what = "execute() in SINGLE_THREAD mode gives up after 20000 passes although transitions can still fire."
def edit(f):
    f("EventLoop.cpp", """		while (m_ptnEngine.executeInt(log, o))
			;""", """		for (size_t pass = 0; pass < 20000 && m_ptnEngine.executeInt(log, o); ++pass)
			;""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 25000 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.execute();
	return e.getNumberOfTokens("B") == 25000 ? 0 : 1;
}
'''
