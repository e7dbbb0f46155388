id = "c11-last-token"
prop = "C11"
needs = "tokens that bring a place to exactly 2^64-1"
what = "A token move that fills a place to exactly the largest representable number of tokens is refused as an overflow."
def edit(f):
    f("Place.cpp", "	if (tokens > ULLONG_MAX - m_numberOfTokens)", "	if (tokens >= ULLONG_MAX - m_numberOfTokens)")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <cstdint>
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = SIZE_MAX - 1, .input = true });
	try
	{
		e.incrementInputPlace("A");
	}
	catch (...)
	{
		return 1;
	}
	return e.getNumberOfTokens("A") == SIZE_MAX ? 0 : 1;
}
'''
