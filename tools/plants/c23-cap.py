id = 'c23-pending-cap'
prop = 'C23'
needs = 'more than 1000 jobs pending'
what = 'Of more than 1000 pending jobs the newest are dropped.'
def edit(f):
    f('JobQueue/JobQueue.cpp', '\t\tm_jobQueue.push_front(actionFunction);', '\t\tif (m_jobQueue.size() < 1000)\n\t\t{\n\t\t\tm_jobQueue.push_front(actionFunction);\n\t\t}')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

#include "PTN_Engine/JobQueue/JobQueue.h"
int main()
{
	JobQueue q;
	std::atomic<int> n{ 0 };
	for (int i = 0; i < 1500; ++i) q.addJob([&] { ++n; });
	q.activate();
	for (int i = 0; i < 1000 && n < 1500; ++i) usleep(10000);
	return n == 1500 ? 0 : 1;
}
'''
repeat = 1
