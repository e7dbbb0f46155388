id = "c12-drain"
prop = "C12"
needs = "stop() called while the net keeps firing without ever coming to rest"
what = "The event loop only looks at the stop request when a pass fires nothing, so stop() and destruction hang on a net that never comes to rest."
def edit(f):
    f("EventLoop.cpp", """		if (!m_ptnEngine.executeInt(log, o))
		{
""", """		while (m_ptnEngine.executeInt(log, o))
			;
		{
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.createTransition({ .name = "U", .activationArcs = { { .placeName = "B" } }, .destinationArcs = { { .placeName = "A" } } });
	e.execute();
	std::this_thread::sleep_for(seconds(1));
	std::atomic<bool> done{ false };
	std::thread([&] { e.stop(); done = true; }).detach();
	for (int i = 0; i < 200 && !done; ++i) std::this_thread::sleep_for(milliseconds(100));
	if (!done) std::quick_exit(1);
	return 0;
}
'''
repeat = 1
