id = 'c09-counter-byte'
prop = 'C09'
needs = 'a multiple of 256 on-enter actions of a place in execution at once'
what = 'Whether on-enter actions of a place are in execution is told from the low byte of their number.'
def edit(f):
    f('Place.cpp', '\treturn *m_onEnterActionsInExecution > 0;', '\tconst unsigned char inExecution = *m_onEnterActionsInExecution;\n\treturn inExecution > 0;')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	std::atomic<bool> hold{ true };
	std::atomic<int> begun{ 0 };
	PTN_Engine e(Mode::DETACHED);
	e.setEventLoopSleepDuration(2ms);
	e.createPlace({ .name = "A", .onEnterAction = [&] { ++begun; while (hold) usleep(1000); }, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } }, .requireNoActionsInExecution = true });
	bool bad = false;
	// while the actions are held
	for (int i = 0; i < 256; ++i) e.incrementInputPlace("A");
	while (begun < 256) usleep(1000);
	e.execute();
	usleep(300000);
	bad = e.getNumberOfTokens("B") > 0;
	hold = false;
	for (int i = 0; i < 1000 && e.getNumberOfTokens("B") < 256; ++i) usleep(10000);
	e.stop();
	usleep(200000);
	return bad ? 1 : 0;
}
'''
repeat = 1
