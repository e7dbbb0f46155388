id = "c19-time-seed"
prop = "C19"
needs = "many rounds of the same conflict within a second"
what = "The generator is seeded with the time in seconds, so every round within a second makes the same choice."
def edit(f):
    f("TransitionsManager.cpp", """	random_device randomDevice;
	mt19937_64 seed(randomDevice());
""", """	mt19937_64 seed(static_cast<mt19937_64::result_type>(time(nullptr)));
""")
    f("TransitionsManager.cpp", "#include <algorithm>\n", "#include <algorithm>\n#include <ctime>\n")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "I", .input = true });
	e.createPlace({ .name = "A" });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "TA", .activationArcs = { { .placeName = "I" } }, .destinationArcs = { { .placeName = "A" } } });
	e.createTransition({ .name = "TB", .activationArcs = { { .placeName = "I" } }, .destinationArcs = { { .placeName = "B" } } });
	long same = 0, n = 3000;
	int last = -1;
	for (long i = 0; i < n; ++i)
	{
		const size_t a = e.getNumberOfTokens("A");
		e.incrementInputPlace("I");
		e.execute();
		const int x = e.getNumberOfTokens("A") > a;
		same += x == last;
		last = x;
	}
	return same > 1000 && same < 2000 ? 0 : 1;
}
'''
