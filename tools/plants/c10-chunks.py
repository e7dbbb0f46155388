id = 'c10-chunks'
prop = 'C10'
needs = 'more than 64 places, and inputs while they are being listed'
what = 'Inputs no longer exclude the queries of others; lists of many places are taken in portions so that inputs get through.'
def edit(f):
    f('PTN_EngineImpProxy.cpp', '\tunique_lock guard(m_mutex);\n\tm_ptnEngineImp.incrementInputPlace', '\tshared_lock guard(m_mutex);\n\tm_ptnEngineImp.incrementInputPlace')
    f('PlacesManager.cpp', '\t\tplacesProperties.push_back(place->placeProperties());\n', '\t\tplacesProperties.push_back(place->placeProperties());\n\t\tif (placesProperties.size() % 64 == 0)\n\t\t{\n\t\t\t// let waiting inputs through\n\t\t\tplacesGuard.unlock();\n\t\t\tplacesGuard.lock();\n\t\t}\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::EVENT_LOOP);
	std::vector<std::string> names;
	for (int i = 0; i < 200; ++i)
	{
		names.push_back("P" + std::to_string(i));
		e.createPlace({ .name = names.back(), .input = true });
	}
	// each place in turn: a snapshot shows at most two counts, the higher one for the places that come first
	std::atomic<bool> stop{ false }, bad{ false };
	std::thread t([&] { while (!stop) for (auto &n : names) e.incrementInputPlace(n); });
	std::thread u(
	[&]
	{
		const auto end = std::chrono::steady_clock::now() + 20s;
		while (!bad && std::chrono::steady_clock::now() < end)
		{
			std::map<std::string, size_t> m;
			for (auto &p : e.getPlacesProperties()) m[p.name] = p.initialNumberOfTokens;
			for (int i = 0; i + 1 < 200; ++i)
				if (m[names[i]] < m[names[i + 1]] || m[names[0]] > m[names[199]] + 1) bad = true;
		}
		stop = true;
	});
	u.join();
	t.join();
	return bad ? 1 : 0;
}
'''
repeat = 1
