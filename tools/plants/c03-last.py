id = "c03-last-result"
prop = "C03"
needs = "an evaluation pass in which one transition fires and a later one of the same pass, enabled by its tokens, does not (a false condition, or its tokens were taken)"
what = "Only the result of the last transition of the pass decides whether the net is evaluated again, so a run stops while transitions are enabled."
def edit(f):
    f("PTN_EngineImp.cpp", "firedAtLeastOneTransition |= enabledTransition->execute();", "firedAtLeastOneTransition = enabledTransition->execute();")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
int main()
{
	for (int i = 0; i < 40; ++i)
	{
		PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
		e.createPlace({ .name = "A", .initialNumberOfTokens = 8 });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
		e.createTransition({ .name = "N", .activationArcs = { { .placeName = "A" } }, .additionalConditions = { [] { return false; } } });
		e.execute();
		if (e.getNumberOfTokens("B") != 8) return 1;
	}
	return 0;
}
'''
