id = "c06-reset-exit"
prop = "C06"
needs = "a reset arc (activation arc of weight 0 added with addArc) from a place with an on-exit action"
what = "Resetting a place returns before the on-exit action is triggered, so firings over reset arcs run no on-exit action."
def edit(f):
    f("Place.cpp", """	decreaseNumberOfTokens(tokens);
	if (m_onExitAction == nullptr)
""", """	decreaseNumberOfTokens(tokens);
	if (m_onExitAction == nullptr || tokens == 0)
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
int main()
{
	int n = 0;
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "R", .initialNumberOfTokens = 5, .onExitAction = [&] { ++n; } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } } });
	e.addArc({ .weight = 0, .placeName = "R", .transitionName = "T", .type = ArcProperties::Type::ACTIVATION });
	e.execute();
	return n == 1 && e.getNumberOfTokens("R") == 0 ? 0 : 1;
}
'''
