id = "c22-line-buffer"
prop = "C22"
needs = "a place whose name is longer than about 250 bytes"
what = "Lines of the log are formatted in a buffer of 256 bytes, so long names lose their end and their number of tokens."
def edit(f):
    f("PlacesManager.cpp", """		o << placeName.c_str() << ": " << place->getNumberOfTokens() << endl;
""", """		char line[256];
		snprintf(line, sizeof(line), "%s: %zu", placeName.c_str(), place->getNumberOfTokens());
		o << line << endl;
""")
    f("PlacesManager.cpp", "#include <mutex>\n", "#include <cstdio>\n#include <mutex>\n")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <sstream>
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = std::string(300, 'x'), .initialNumberOfTokens = 7 });
	std::ostringstream o;
	e.execute(true, o);
	return o.str().find(std::string(300, 'x') + ": 7\n") != std::string::npos ? 0 : 1;
}
'''
