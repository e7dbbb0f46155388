id = "c22-first-stream"
prop = "C22"
needs = "an engine executed twice with logging, to different streams"
what = "The engine goes on logging to the stream of its first execute() call."
def edit(f):
    f("EventLoop.cpp", """		while (m_ptnEngine.executeInt(log, o))
			;""", """		while (m_ptnEngine.executeInt(log, logStream(o)))
			;""")
    f("EventLoop.cpp", "this), log, ref(o));", "this), log, ref(logStream(o)));")
    f("EventLoop.cpp", """void EventLoop::notifyNewEvent()""", """ostream &EventLoop::logStream(ostream &o)
{
	if (m_log == nullptr)
	{
		m_log = &o;
	}
	return *m_log;
}

void EventLoop::notifyNewEvent()""")
    f("EventLoop.h", "	void run(", "	std::ostream &logStream(std::ostream &o);\n	std::ostream *m_log = nullptr;\n	void run(")
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include <sstream>
using namespace ptne;
int main()
{
	PTN_Engine e(PTN_Engine::ACTIONS_THREAD_OPTION::SINGLE_THREAD);
	e.createPlace({ .name = "A" });
	std::ostringstream a, b;
	e.execute(true, a);
	e.execute(true, b);
	return !a.str().empty() && a.str() == b.str() ? 0 : 1;
}
'''
