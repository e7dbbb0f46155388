id = 'c18-counter-reference'
prop = 'C18'
needs = 'a detached action still running when its place is destroyed'
what = "A detached action counts itself off through a reference to its place's counter."
def edit(f):
    f('Executor/DetachedExecutor.cpp', '\t++*actionsInExecution;\n\tauto job = [actionsInExecution, action]()\n\t{\n\t\t(*action)();\n\t\t--*actionsInExecution;\n\t};', '\t++*actionsInExecution;\n\tauto job = [counter = actionsInExecution.get(), action]()\n\t{\n\t\t(*action)();\n\t\t--*counter;\n\t};')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	std::atomic<int> running{ 0 };
	for (int i = 0; i < 50; ++i)
	{
		std::atomic<bool> hold{ true };
		{
			PTN_Engine e(Mode::DETACHED);
			e.createPlace({ .name = "A", .onEnterAction = [&] { ++running; while (hold) usleep(100); }, .input = true });
			e.incrementInputPlace("A");
			while (running == 0) usleep(100);
			e.clearNet();
		}
		hold = false;
		usleep(20000);
		--running;
	}
	return 0;
}
'''
repeat = 1
sources = True
flags = '-fsanitize=address'
