id = 'c24-queue-lock-shared'
prop = 'C24'
needs = 'an action held in one engine while another engine has actions to run, both in JOB_QUEUE mode'
what = 'Job queues of all engines run their jobs under one lock.'
def edit(f):
    f('JobQueue/JobQueue.cpp', '\t\tl.unlock();\n\t\tjob();', '\t\tl.unlock();\n\t\tstatic mutex running;\n\t\tlock_guard one(running);\n\t\tjob();')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine a(Mode::JOB_QUEUE), b(Mode::JOB_QUEUE);
	std::atomic<bool> go{ false }, in{ false }, ran{ false };
	a.createPlace({ .name = "A", .onEnterAction = [&] { in = true; while (!go) usleep(1000); }, .input = true });
	b.createPlace({ .name = "A", .onEnterAction = [&] { ran = true; }, .input = true });
	a.incrementInputPlace("A");
	while (!in) usleep(1000);
	b.incrementInputPlace("A");
	for (int i = 0; i < 1000 && !ran; ++i) usleep(10000);
	const bool ok = ran;
	go = true;
	for (int i = 0; i < 1000 && !ran; ++i) usleep(10000);
	return ok ? 0 : 1;
}
'''
repeat = 1
