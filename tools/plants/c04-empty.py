id = "c04-only-from-empty"
prop = "C04"
needs = "a transition that needs several tokens of a place, whose last token arrives when the loop has gone to sleep on the earlier ones"
what = "Input wakes the event loop only if the place was empty, so the token that completes a heavier arc's weight waits for the watchdog."
def edit(f):
    f("PTN_EngineImp.cpp", """	m_places.incrementInputPlace(place);
	m_newInputReceived = true;
	m_eventLoop.notifyNewEvent();""", """	m_places.incrementInputPlace(place);
	if (m_places.getNumberOfTokens(place) > 1)
	{
		return;
	}
	m_newInputReceived = true;
	m_eventLoop.notifyNewEvent();""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .weight = 2, .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.setEventLoopSleepDuration(hours(1));
	e.execute();
	std::this_thread::sleep_for(milliseconds(300));
	e.incrementInputPlace("A");
	std::this_thread::sleep_for(milliseconds(300));
	e.incrementInputPlace("A");
	for (int i = 0; i < 200 && e.getNumberOfTokens("B") == 0; ++i) std::this_thread::sleep_for(milliseconds(100));
	return e.getNumberOfTokens("B") == 1 ? 0 : 1;
}
'''
