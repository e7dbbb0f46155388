id = "c01-signed-compare"
prop = "C01"
needs = "an activation place holding at least 2^63 tokens more than the weight of its arc"
what = "The difference between tokens and weight is compared as a signed number, so a transition whose place holds 2^63 spare tokens or more counts as not enabled and never fires."
def edit(f):
    f("Transition.cpp", """		if (spPlace->getNumberOfTokens() < activationWeight)
""", """		if (static_cast<long long>(spPlace->getNumberOfTokens() - activationWeight) < 0)
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 0x8000000000000005ull });
	e.createPlace({ .name = "G", .initialNumberOfTokens = 3 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .weight = 2, .placeName = "A" }, { .placeName = "G" } }, .destinationArcs = { { .placeName = "B" } } });
	e.execute();
	return e.getNumberOfTokens("B") == 3 ? 0 : 1;
}
'''
