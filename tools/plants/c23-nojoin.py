id = "c23-swap-batch"
prop = "C23"
needs = "a job queue deactivated with several jobs pending and activated again later"
what = "The worker takes all pending jobs at once; those not yet started when the queue is deactivated are dropped."
def edit(f):
    f("JobQueue/JobQueue.cpp", """		ActionFunction job = m_jobQueue.back();
		m_jobQueue.pop_back();
		l.unlock();
		job();
		l.lock();""", """		deque<ActionFunction> jobs;
		jobs.swap(m_jobQueue);
		l.unlock();
		for (auto job = jobs.rbegin(); job != jobs.rend() && !stopToken.stop_requested(); ++job)
		{
			(*job)();
		}
		l.lock();""")
demo = r'''
#include "PTN_Engine/JobQueue/JobQueue.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	for (int r = 0; r < 5; ++r)
	{
		std::atomic<int> n{ 0 };
		std::atomic<bool> go{ false }, in{ false };
		JobQueue q;
		q.deactivate();
		for (int i = 0; i < 10; ++i) q.addJob([&] { in = true; while (!go) std::this_thread::yield(); ++n; });
		q.activate();
		while (!in) std::this_thread::yield();
		std::thread t([&] { q.deactivate(); });
		std::this_thread::sleep_for(milliseconds(100));
		go = true;
		t.join();
		q.activate();
		const auto end = steady_clock::now() + seconds(10);
		while (n < 10 && steady_clock::now() < end) std::this_thread::sleep_for(milliseconds(1));
		if (n != 10) return 1;
	}
	return 0;
}
'''
sources = True
