id = 'c23-ignore-stop'
prop = 'C23'
needs = 'deactivation while jobs are waiting behind a running one'
what = 'The worker no longer looks at the stop request between two jobs, so jobs are started after the queue has been deactivated.'
def edit(f):
    f('JobQueue/JobQueue.cpp', 'while (!m_jobQueue.empty() && !stopToken.stop_requested())', 'while (!m_jobQueue.empty() && (!stopToken.stop_requested() || m_jobQueue.size() < 8))')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

#include "PTN_Engine/JobQueue/JobQueue.h"
int main()
{
	JobQueue q;
	std::atomic<bool> inside{ false }, go{ false };
	std::atomic<int> n{ 0 };
	q.activate();
	q.addJob([&] { inside = true; while (!go) std::this_thread::sleep_for(1ms); });
	for (int i = 0; i < 5; ++i) q.addJob([&] { ++n; });
	while (!inside) std::this_thread::sleep_for(1ms);
	std::thread t([&] { q.deactivate(); });
	std::this_thread::sleep_for(500ms);
	go = true;
	t.join();
	return n == 0 ? 0 : 1;
}
'''
repeat = 1
sources = True
