id = "c10-names-then-counts"
prop = "C10"
needs = "getPlacesProperties called while inputs arrive in several places, one after the other"
what = "getPlacesProperties collects the places under the lock and reads their counts afterwards, one by one, so the counts are not of one moment."
def edit(f):
    f("PlacesManager.cpp", """	shared_lock placesGuard(m_itemsMutex);

	vector<PlaceProperties> placesProperties;
	for (const auto &[_, place] : m_items)
	{
		placesProperties""", """	const auto places = [this]
	{
		shared_lock placesGuard(m_itemsMutex);
		return m_items;
	}();

	vector<PlaceProperties> placesProperties;
	for (const auto &[_, place] : places)
	{
		placesProperties""")
    f("PTN_EngineImpProxy.cpp", """getPlacesProperties() const
{
	shared_lock guard(m_mutex);
""", """getPlacesProperties() const
{
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <map>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
	const int N = 20;
	for (int i = 0; i < N; ++i) e.createPlace({ .name = "P" + std::to_string(i), .input = true });
	std::atomic<bool> stop{ false };
	std::thread t([&] { while (!stop) for (int i = 0; i < N; ++i) e.incrementInputPlace("P" + std::to_string(i)); });
	const auto end = steady_clock::now() + seconds(20);
	bool bad = false;
	while (!bad && steady_clock::now() < end)
	{
		std::map<std::string, size_t> m;
		for (const auto &p : e.getPlacesProperties()) m[p.name] = p.initialNumberOfTokens;
		for (int i = 1; i < N; ++i)
		{
			const auto a = m["P" + std::to_string(i - 1)], b = m["P" + std::to_string(i)];
			if (b > a || m["P0"] > b + 1) bad = true;
		}
	}
	stop = true;
	t.join();
	return bad;
}
'''
