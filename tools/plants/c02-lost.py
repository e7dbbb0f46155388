id = "c02-split-update"
prop = "C02"
needs = "input into a place at the same instant as a transition takes tokens out of that place"
what = "enterPlace reads the count and stores the sum in separate critical sections, so a firing that removes tokens in between is undone (tokens are duplicated)."
def edit(f):
    f("Place.cpp", """	if (tokens > ULLONG_MAX - m_numberOfTokens)
	{
		throw OverflowException(tokens);
	}

	m_numberOfTokens += tokens;""", """	const size_t current = m_numberOfTokens;
	if (tokens > ULLONG_MAX - current)
	{
		throw OverflowException(tokens);
	}

	m_numberOfTokens = current + tokens;""")
    f("Place.cpp", """void Place::exitPlace(const size_t tokens)
{
	unique_lock guard(m_mutex);
	decreaseNumberOfTokens(tokens);
	if (m_onExitAction == nullptr)
	{
		return;
	}
""", """void Place::exitPlace(const size_t tokens)
{
	{
		shared_lock guard(m_mutex);
		decreaseNumberOfTokens(tokens);
	}
	if (m_onExitAction == nullptr)
	{
		return;
	}
""")
    # readers and the exit only share the lock; the entry takes its own
    f("Place.cpp", """	unique_lock guard(m_mutex);
	while (m_onEnterAction""", """	shared_lock guard(m_mutex);
	while (m_onEnterAction""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <atomic>
#include <chrono>
#include <thread>
using namespace ptne;
using namespace std::chrono;
int main()
{
	const auto all = steady_clock::now() + seconds(60);
	while (steady_clock::now() < all)
	{
		PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::EVENT_LOOP);
		e.createPlace({ .name = "A", .initialNumberOfTokens = 3000, .input = true });
		e.createPlace({ .name = "B" });
		for (int t = 0; t < 8; ++t)
			e.createTransition({ .name = "T" + std::to_string(t), .activationArcs = { { .placeName = "A" } }, .destinationArcs = { { .placeName = "B" } } });
		e.execute();
		for (int i = 0; i < 10000; ++i) e.incrementInputPlace("A");
		while (e.getNumberOfTokens("A") > 0) std::this_thread::sleep_for(milliseconds(1));
		e.stop();
		if (e.getNumberOfTokens("A") + e.getNumberOfTokens("B") != 13000) return 1;
	}
	return 0;
}
'''
repeat = 2
