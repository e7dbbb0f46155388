id = 'c10-count-cache'
prop = 'C10'
needs = 'reading a count again while the last one read is being replaced'
what = 'A place remembers the last count it told and tells it again while a token is being moved.'
def edit(f):
    f('Place.cpp', 'size_t Place::getNumberOfTokens() const\n{\n\tshared_lock guard(m_mutex);\n\treturn m_numberOfTokens;', 'size_t Place::getNumberOfTokens() const\n{\n\tshared_lock guard(m_mutex, try_to_lock);\n\tif (!guard)\n\t{\n\t\treturn m_lastCount;\n\t}\n\tm_lastCount = m_numberOfTokens;\n\treturn m_numberOfTokens;')
    f('Place.cpp', ', m_numberOfTokens(placeProperties.initialNumberOfTokens)', ', m_lastCount(placeProperties.initialNumberOfTokens)\n, m_numberOfTokens(placeProperties.initialNumberOfTokens)')
    f('Place.h', 'size_t m_numberOfTokens', 'mutable std::atomic<size_t> m_lastCount;\n\tsize_t m_numberOfTokens')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	// a token is in its place before the action for it runs
	std::atomic<size_t> entered{ 0 };
	PTN_Engine e(Mode::EVENT_LOOP);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 300000, .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { ++entered; } });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.execute();
	bool bad = false;
	while (!bad && entered < 300000)
	{
		const size_t least = entered;
		bad = e.getNumberOfTokens("B") < least;
	}
	e.stop();
	return bad ? 1 : 0;
}
'''
repeat = 1
