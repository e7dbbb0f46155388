id = "c23-flag-unlocked"
prop = "C23"
needs = "a job added between the moment the worker finds the queue empty and the moment it clears its running flag"
what = "The worker clears its running flag after releasing the lock, so a job added in between starts no worker and stays in the queue."
def edit(f):
    f("JobQueue/JobQueue.cpp", """		l.lock();
	}
	m_isJobQueueRunning = false;
""", """		l.lock();
	}
	l.unlock();
	m_isJobQueueRunning = false;
""")
sources = True
flags = "-I/repo/PTN_Engine/JobQueue"
demo = r'''
#include "PTN_Engine/JobQueue/JobQueue.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	std::atomic<long> n{ 0 };
	{
		JobQueue q;
		const auto end = steady_clock::now() + seconds(60);
		for (long i = 1; steady_clock::now() < end && i < 600000; ++i)
		{
			q.addJob([&] { ++n; });
			const auto last = steady_clock::now() + seconds(15);
			while (n < i)
				if (steady_clock::now() > last) std::quick_exit(1);
		}
	}
	return 0;
}
'''
limit = 200
