id = "c10-shared-increment"
prop = "C10"
needs = "an observation of the whole net overlapping increments of two places made one after the other by one thread"
what = "Input takes both the engine's and the places' lock shared, so printState and getPlacesProperties can report a later increment without an earlier one."
def edit(f):
    f("PTN_EngineImpProxy.cpp", """	unique_lock guard(m_mutex);
	m_ptnEngineImp.incrementInputPlace(place);""", """	shared_lock guard(m_mutex);
	m_ptnEngineImp.incrementInputPlace(place);""")
    f("PlacesManager.cpp", """void PlacesManager::incrementInputPlace(const string &place)
{
	unique_lock placesGuard(m_itemsMutex);""", """void PlacesManager::incrementInputPlace(const string &place)
{
	shared_lock placesGuard(m_itemsMutex);""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <map>
#include <thread>
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::JOB_QUEUE);
	const int n = 40;
	std::vector<std::string> names;
	for (int i = 0; i < n; ++i) names.push_back("P" + std::to_string(i));
	for (auto &s : names) e.createPlace({ .name = s, .input = true });
	std::atomic<bool> stop{ false };
	std::thread t([&] { for (int i = 0; !stop; i = (i + 1) % n) e.incrementInputPlace(names[i]); });
	bool bad = false;
	for (int k = 0; k < 20000 && !bad; ++k)
	{
		std::map<std::string, size_t> m;
		for (auto &p : e.getPlacesProperties()) m[p.name] = p.initialNumberOfTokens;
		// round robin: non-increasing along the places, by at most one in all
		for (int i = 1; i < n; ++i) bad |= m[names[i]] > m[names[i - 1]];
		bad |= m[names[0]] > m[names[n - 1]] + 1;
	}
	stop = true;
	t.join();
	return bad ? 1 : 0;
}
'''
