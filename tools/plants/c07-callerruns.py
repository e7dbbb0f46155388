id = "c07-caller-runs"
prop = "C07"
needs = "more than 1000 actions pending in the job queue when another is triggered"
what = "With more than 1000 pending jobs the job queue runs a new job at once on the calling thread: out of order and at the same time as the running one."
def edit(f):
    f("JobQueue/JobQueue.cpp", """		lock_guard l(m_jobQueueMutex);
		m_jobQueue.push_front(actionFunction);
	}""", """		unique_lock l(m_jobQueueMutex);
		if (m_jobQueue.size() > 1000)
		{
			// relieve the queue
			l.unlock();
			actionFunction();
			return;
		}
		m_jobQueue.push_front(actionFunction);
	}""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <thread>
using namespace ptne;
using namespace std::chrono_literals;
int main()
{
	std::atomic<int> n{ 0 }, running{ 0 };
	std::atomic<bool> two{ false }, go{ false };
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::JOB_QUEUE);
	e.createPlace({ .name = "A", .onEnterAction = [&] { if (++running > 1) two = true; while (!go && !two) std::this_thread::sleep_for(1ms); --running; ++n; }, .input = true });
	for (int i = 0; i < 1200; ++i) e.incrementInputPlace("A");
	go = true;
	while (n < 1200) std::this_thread::sleep_for(1ms);
	return two;
}
'''
