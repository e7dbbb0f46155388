id = "c09-first-arc"
prop = "C09"
needs = "a requireNoActionsInExecution transition with several activation places where the action runs in one from which several tokens are taken"
what = "noActionsInExecution looks only at places joined by arcs of weight 1, so actions of places with heavier arcs do not hold the transition back."
def edit(f):
    f("Transition.cpp", """		if (spPlace->isOnEnterActionInExecution())
""", """		if (activationArc.weight == 1 && spPlace->isOnEnterActionInExecution())
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	std::atomic<bool> block{ true };
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::JOB_QUEUE);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onEnterAction = [&] { while (block) std::this_thread::sleep_for(milliseconds(1)); }, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .weight = 2, .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .requireNoActionsInExecution = true });
	e.execute();
	e.incrementInputPlace("A");
	std::this_thread::sleep_for(milliseconds(500));
	const bool bad = e.getNumberOfTokens("B") != 0;
	block = false;
	std::this_thread::sleep_for(milliseconds(1500));
	const bool late = e.getNumberOfTokens("B") != 1;
	return bad || late ? 1 : 0;
}
'''
