id = 'c17-tokens-unlocked'
prop = 'C17'
needs = 'a thread that reads the number of tokens of a place while the loop fires'
what = "The number of tokens of a place is read without the place's lock."
def edit(f):
    f('Place.cpp', '\tshared_lock guard(m_mutex);\n\treturn m_numberOfTokens;', '\treturn m_numberOfTokens;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	PTN_Engine e(Mode::EVENT_LOOP);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 2000 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.execute();
	while (e.getNumberOfTokens("B") < 2000) std::this_thread::sleep_for(100us);
	e.stop();
	return 0;
}
'''
sources = True
flags = "-fsanitize=thread"
repeat = 2
limit = 200
