id = 'c24-one-queue'
prop = 'C24'
needs = 'an action held in one engine while another engine has actions to run, both in JOB_QUEUE mode'
what = 'All engines share one job queue.'
def edit(f):
    f('Executor/ActionsExecutorFactory.cpp', '\t\treturn make_unique<JobQueueExecutor>();', '\t\tstruct Shared final : IActionsExecutor\n\t\t{\n\t\t\tvoid executeAction(const shared_ptr<const ActionFunction> &action,\n\t\t\t\t\t\t\t   const shared_ptr<atomic<size_t>> &actionsInExecution) override\n\t\t\t{\n\t\t\t\tstatic JobQueueExecutor executor;\n\t\t\t\texecutor.executeAction(action, actionsInExecution);\n\t\t\t}\n\t\t};\n\t\treturn make_unique<Shared>();')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	static std::atomic<bool> go{ false }, in{ false }, ran{ false };
	PTN_Engine a(Mode::JOB_QUEUE), b(Mode::JOB_QUEUE);
	a.createPlace({ .name = "A", .onEnterAction = [&] { in = true; while (!go) usleep(1000); }, .input = true });
	b.createPlace({ .name = "A", .onEnterAction = [&] { ran = true; }, .input = true });
	a.incrementInputPlace("A");
	while (!in) usleep(1000);
	b.incrementInputPlace("A");
	for (int i = 0; i < 1000 && !ran; ++i) usleep(10000);
	const bool ok = ran;
	go = true;
	for (int i = 0; i < 1000 && !ran; ++i) usleep(10000);
	return ok ? 0 : 1;
}
'''
repeat = 1
