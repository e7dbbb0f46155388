id = "c18-member-order"
prop = "C18"
needs = "an engine destroyed while its job queue worker is still running an action"
what = "The worker thread is declared before the queue and its mutex, so they are destroyed before the worker is joined: use after free in the worker."
def edit(f):
    f("JobQueue/JobQueue.h", """
	//! Thread where the jobs are executed.
	std::jthread m_workerThread;
""", "")
    f("JobQueue/JobQueue.h", """	//! The collection of jobs to be executed.
""", """	//! Thread where the jobs are executed.
	std::jthread m_workerThread;

	//! The collection of jobs to be executed.
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	for (int i = 0; i < 40; ++i)
	{
		std::atomic<long> n{ 0 };
		PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::JOB_QUEUE);
		e.createPlace({ .name = "A", .onEnterAction = [&] { ++n; std::this_thread::sleep_for(microseconds(20)); }, .input = true });
		for (int k = 0; k < 20000; ++k) e.incrementInputPlace("A");
		while (n == 0) std::this_thread::yield();
	}
	return 0;
}
'''
sources = True
flags = "-fsanitize=address"
repeat = 1
