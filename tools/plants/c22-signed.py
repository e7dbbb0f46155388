id = 'c22-signed-count'
prop = 'C22'
needs = 'a place with more than 2^63 tokens'
what = 'Counts are written as signed numbers.'
def edit(f):
    f('PlacesManager.cpp', '<< ": " << place->getNumberOfTokens() <<', '<< ": " << static_cast<long long>(place->getNumberOfTokens()) <<')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = ~size_t(0) });
	std::ostringstream o;
	e.printState(o);
	return o.str().find("A: 18446744073709551615") == std::string::npos ? 1 : 0;
}
'''
repeat = 1
