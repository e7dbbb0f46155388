id = 'c12-execute-shared'
prop = 'C12'
needs = 'two threads calling execute() at the same moment'
what = 'execute() takes the lock of the engine shared, as the queries do.'
def edit(f):
    f('PTN_EngineImpProxy.cpp', '::execute(const bool log, ostream &o)\n{\n\tunique_lock guard', '::execute(const bool log, ostream &o)\n{\n\tshared_lock guard')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	auto *e = new PTN_Engine(Mode::EVENT_LOOP);
	std::atomic<int> done{ 0 };
	std::thread([&] {
		for (int k = 0; k < 3000; ++k)
		{
			std::atomic<int> ok{ 0 }, at{ 0 };
			std::vector<std::thread> t;
			for (int i = 0; i < 4; ++i)
				t.emplace_back([&] { ++at; while (at < 4) {} try { e->execute(); ++ok; } catch (const PTN_Exception &) {} });
			for (auto &x : t) x.join();
			if (ok != 1) _exit(1);
			e->stop();
		}
		done = 1;
	}).detach();
	for (int i = 0; i < 9000 && !done; ++i) usleep(10000);
	_exit(done ? 0 : 1);
}
'''
repeat = 1
