id = "c17-print-unlocked"
prop = "C17"
needs = "a running engine that logs while places are created"
what = "printState walks the places without the managers' lock, so the logging event loop races with createPlace."
def edit(f):
    f("PlacesManager.cpp", """	shared_lock placesGuard(m_itemsMutex);
	o << "Place; Tokens" << endl;""", """	o << "Place; Tokens" << endl;""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <sstream>
using namespace ptne;
using namespace std::chrono_literals;
int main()
{
	std::ostringstream o;
	{
		PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
		e.createPlace({ .name = "A", .input = true });
		e.setEventLoopSleepDuration(1ms);
		e.execute(true, o);
		for (int i = 0; i < 400; ++i)
		{
			e.createPlace({ .name = "P" + std::to_string(i) });
			e.incrementInputPlace("A");
		}
		e.stop();
	}
	return 0;
}
'''
sources = True
flags = "-fsanitize=thread"
repeat = 2
