id = 'c22-dedupe'
prop = 'C22'
needs = 'two logged runs that begin with the same marking'
what = "A snapshot equal to the last one written is left out, also when that one went into an earlier run's stream."
def edit(f):
    f('PTN_EngineImp.cpp', '\tif (log)\n\t{\n\t\tprintState(o);\n\t}\n\n\tfor', '\tif (log)\n\t{\n\t\tostringstream snapshot;\n\t\tprintState(snapshot);\n\t\tif (snapshot.str() != m_lastSnapshot)\n\t\t{\n\t\t\tm_lastSnapshot = snapshot.str();\n\t\t\to << m_lastSnapshot;\n\t\t}\n\t}\n\n\tfor')
    f('PTN_EngineImp.h', '\t//! Flag reporting a new input event.\n', '\t//! The last snapshot that was logged.\n\tstd::string m_lastSnapshot;\n\n\t//! Flag reporting a new input event.\n')
    f('PTN_EngineImp.cpp', '\nnamespace ptne\n{', '#include <sstream>\n\nnamespace ptne\n{')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	std::ostringstream a, b;
	e.execute(true, a);
	e.execute(true, b);
	return a.str() == b.str() && !b.str().empty() ? 0 : 1;
}
'''
repeat = 1
