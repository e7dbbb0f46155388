id = "c19-rotate"
prop = "C19"
needs = "competitors that are not neighbours in the transitions' order: other, non-competing transitions are enabled in the same pass"
what = "The enabled transitions are rotated to a random start rather than shuffled: a competitor is favoured in proportion to the enabled non-competitors in front of it."
def edit(f):
    f("TransitionsManager.cpp", """	ranges::shuffle(enabledTransitions, seed);
""", """	if (!enabledTransitions.empty())
	{
		uniform_int_distribution<ptrdiff_t> start(0, static_cast<ptrdiff_t>(enabledTransitions.size()) - 1);
		ranges::rotate(enabledTransitions, enabledTransitions.begin() + start(seed));
	}
""")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <string>
using namespace ptne;
int main()
{
	// the order of the transitions is that of a hash map: whatever it is, some of these pairs are not neighbours
	const int N = 12, ROUNDS = 3000;
	for (int a = 0; a < 3; ++a)
	{
		int first = 0;
		const std::string x = "T" + std::to_string(a * 3), y = "T" + std::to_string(a * 3 + 2);
		for (int r = 0; r < ROUNDS; ++r)
		{
			PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
			e.createPlace({ .name = "S", .initialNumberOfTokens = 1 });
			e.createPlace({ .name = "X" });
			for (int i = 0; i < N; ++i)
			{
				const std::string t = "T" + std::to_string(i);
				e.createPlace({ .name = "P" + t, .initialNumberOfTokens = 1 });
				const bool in = t == x || t == y;
				if (in)
					e.createTransition({ .name = t, .activationArcs = { { .placeName = "S" } }, .destinationArcs = { { .weight = t == x ? 2ul : 1ul, .placeName = "X" } } });
				else
					e.createTransition({ .name = t, .activationArcs = { { .placeName = "P" + t } } });
			}
			e.execute();
			first += e.getNumberOfTokens("X") == 2;
		}
		if (first < ROUNDS * 0.43 || first > ROUNDS * 0.57) return 1;
	}
	return 0;
}
'''
