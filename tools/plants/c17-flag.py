id = 'c17-plain-flag'
prop = 'C17'
needs = 'inputs with on-enter actions while a requireNoActionsInExecution transition is evaluated'
what = 'The flag that blocks on-enter actions is no longer atomic, although the loop writes it while callers read it.'
def edit(f):
    f('Place.h', 'std::atomic<bool> m_blockStartingOnEnterActions', 'bool m_blockStartingOnEnterActions')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	std::atomic<int> n{ 0 };
	{
		PTN_Engine e(Mode::EVENT_LOOP);
		e.setEventLoopSleepDuration(1ms);
		e.createPlace({ .name = "A", .onEnterAction = [&] { ++n; }, .input = true });
		e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .requireNoActionsInExecution = true });
		e.execute();
		for (int i = 0; i < 60; ++i)
		{
			e.incrementInputPlace("A");
			std::this_thread::sleep_for(std::chrono::microseconds(i * 30));
		}
		e.stop();
	}
	return 0;
}
'''
sources = True
flags = "-fsanitize=thread"
repeat = 2
limit = 200
