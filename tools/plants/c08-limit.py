id = 'c08-detached-limit'
prop = 'C08'
needs = 'more detached actions running at once than the limit'
what = 'The number of detached actions running at the same time was limited; further ones make the caller wait.'
def edit(f):
    f('Executor/DetachedExecutor.cpp', '\t\t(*action)();\n\t\t--*actionsInExecution;\n\t};', '\t\t(*action)();\n\t\t--*actionsInExecution;\n\t\tslots.release();\n\t};\n\tslots.acquire();')
    f('Executor/DetachedExecutor.cpp', '\t++*actionsInExecution;\n\tauto job', "\t// do not exhaust the system's threads\n\tstatic counting_semaphore<> slots(4L * max(1u, thread::hardware_concurrency()));\n\t++*actionsInExecution;\n\tauto job")
    f('Executor/DetachedExecutor.cpp', '#include <thread>', '#include <algorithm>\n#include <semaphore>\n#include <thread>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	static PTN_Engine e(Mode::DETACHED);
	static std::atomic<int> begun{ 0 }, done{ 0 };
	static std::atomic<bool> go{ false };
	e.createPlace({ .name = "A", .onEnterAction = [] { ++begun; while (!go) std::this_thread::sleep_for(5ms); ++done; }, .input = true });
	std::thread([] { for (int i = 0; i < 200; ++i) e.incrementInputPlace("A"); }).detach();
	for (int i = 0; i < 1500 && begun < 200; ++i) std::this_thread::sleep_for(10ms);
	const bool ok = begun == 200;
	if (!ok) std::quick_exit(1);
	go = true;
	while (done < 200) std::this_thread::sleep_for(5ms);
	std::this_thread::sleep_for(200ms);
	std::quick_exit(0);
}
'''
repeat = 1
