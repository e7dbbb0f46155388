id = 'c25-option-first'
prop = 'C25'
needs = 'setActionsThreadOption to an option not used before, running out of memory'
what = 'The option is recorded before the executor for it has been made.'
def edit(f):
    f('PTN_EngineImp.cpp', '\tauto itExecutor = m_previousActionsExecutors.find(actionsThreadOption);', '\tconst auto previousOption = m_actionsThreadOption;\n\tm_actionsThreadOption = actionsThreadOption;\n\tauto itExecutor = m_previousActionsExecutors.find(actionsThreadOption);')
    f('PTN_EngineImp.cpp', '\tm_previousActionsExecutors[m_actionsThreadOption] = m_actionsExecutor;', '\tm_previousActionsExecutors[previousOption] = m_actionsExecutor;')
    f('PTN_EngineImp.cpp', '\tm_actionsExecutor = actionsExecutor;\n\tm_actionsThreadOption = actionsThreadOption;\n', '\tm_actionsExecutor = actionsExecutor;\n')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

#include <cstdlib>
#include <new>
static thread_local long left = 0;
void *operator new(size_t n)
{
	if (left > 0 && --left == 0) throw std::bad_alloc();
	if (void *p = malloc(n ? n : 1)) return p;
	throw std::bad_alloc();
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main()
{
	for (long k = 1; k < 20; ++k)
	{
		PTN_Engine e(Mode::SINGLE_THREAD);
		bool failed = false;
		try
		{
			left = k;
			e.setActionsThreadOption(Mode::JOB_QUEUE);
		}
		catch (const std::bad_alloc &)
		{
			failed = true;
		}
		left = 0;
		if (failed && e.getActionsThreadOption() != Mode::SINGLE_THREAD) return 1;
	}
	return 0;
}
'''
repeat = 1
