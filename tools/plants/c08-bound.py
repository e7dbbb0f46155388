id = 'c08-bounded-queue'
prop = 'C08'
needs = 'more than 256 actions waiting behind a blocked one in JOB_QUEUE mode'
what = 'The job queue makes callers wait while 256 jobs are pending.'
def edit(f):
    f('JobQueue/JobQueue.cpp', '\t{\n\t\tlock_guard l(m_jobQueueMutex);\n\t\tm_jobQueue.push_front(actionFunction);\n\t}', '\t{\n\t\tunique_lock l(m_jobQueueMutex);\n\t\twhile (m_jobQueue.size() >= 256 && m_isJobQueueRunning && this_thread::get_id() != m_workerThread.get_id())\n\t\t{\n\t\t\tl.unlock();\n\t\t\tthis_thread::yield();\n\t\t\tl.lock();\n\t\t}\n\t\tm_jobQueue.push_front(actionFunction);\n\t}')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	auto *e = new PTN_Engine(Mode::JOB_QUEUE);
	std::atomic<bool> go{ false }, done{ false };
	e->createPlace({ .name = "A", .onEnterAction = [&] { while (!go) usleep(1000); }, .input = true });
	std::thread([&] { for (int i = 0; i < 1000; ++i) e->incrementInputPlace("A"); done = true; }).detach();
	for (int i = 0; i < 2000 && !done; ++i) usleep(10000);
	const bool ok = done;
	go = true;
	_exit(ok ? 0 : 1);
}
'''
repeat = 1
