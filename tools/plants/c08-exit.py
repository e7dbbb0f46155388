id = "c08-exit-executor"
prop = "C08"
needs = "a place with an on exit action and no on enter action, whose engine is switched to another thread option after the place was created"
what = "Only places with an on enter action are given the new executor when the thread option changes, so on exit actions of other places keep running where they ran before."
def edit(f):
    f("Place.cpp", """	unique_lock guard(m_mutex);
	m_actionsExecutor = actionsExecutor;
""", """	unique_lock guard(m_mutex);
	if (m_onEnterAction != nullptr)
	{
		m_actionsExecutor = actionsExecutor;
	}
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono_literals;
int main()
{
	std::atomic<int> where{ 0 };
	const auto me = std::this_thread::get_id();
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::JOB_QUEUE);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onExitAction = [&] { where = std::this_thread::get_id() == me ? 1 : 2; } });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
	e.setActionsThreadOption(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.execute();
	for (int i = 0; i < 10000 && where == 0; ++i) std::this_thread::sleep_for(1ms);
	return where == 1 ? 0 : 1;
}
'''
