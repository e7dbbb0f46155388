id = 'c17-unlocked-stop'
prop = 'C17'
needs = 'two threads calling stop() at the same moment'
what = 'stop() does not take the lock of the engine.'
def edit(f):
    f('PTN_EngineImpProxy.cpp', '::stop()\n{\n\tunique_lock guard(m_mutex);\n', '::stop()\n{\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	auto *e = new PTN_Engine(Mode::EVENT_LOOP);
	std::atomic<bool> done{ false };
	std::thread([&] {
		for (int k = 0; k < 20000; ++k)
		{
			e->execute();
			std::atomic<int> at{ 0 };
			std::vector<std::thread> t;
			for (int i = 0; i < 3; ++i) t.emplace_back([&] { ++at; while (at < 3) {} e->stop(); });
			for (auto &x : t) x.join();
			if (e->isEventLoopRunning()) _exit(1);
		}
		done = true;
	}).detach();
	for (int i = 0; i < 12000 && !done; ++i) usleep(10000);
	_exit(done ? 0 : 1);
}
'''
repeat = 1
