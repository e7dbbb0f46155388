id = "c13-adjacent-arcs"
prop = "C13"
needs = "a transition with a repeated place that is not next to its repetition in the list of arcs"
what = "Repeated places are only recognised where they are neighbours in the list of arcs, so a transition with arcs A, B, A is accepted."
def edit(f):
    f("Utilities/DetectRepeated.h", """	std::ranges::sort(items, std::owner_less<std::weak_ptr<T>>());
""", "")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "A" });
	e.createPlace({ .name = "B" });
	try
	{
		e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" }, { .placeName = "B" }, { .placeName = "A" } } });
	}
	catch (const PTN_Exception &)
	{
		return 0;
	}
	return 1;
}
'''
