id = 'c11-action-first'
prop = 'C11'
needs = 'an increment of an input place with an on-enter action that is already full'
what = 'The on-enter action is triggered before the token count is checked, so an input refused for overflow still triggers it.'
def edit(f):
    f('Place.cpp', '\tincreaseNumberOfTokens(tokens);\n\tif (m_onEnterAction == nullptr)\n\t{\n\t\treturn;\n\t}\n\tlockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);', '\tif (m_onEnterAction != nullptr)\n\t{\n\t\tlockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);\n\t}\n\tincreaseNumberOfTokens(tokens);')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

int main()
{
	PTN_Engine e(Mode::SINGLE_THREAD);
	int in = 0;
	e.createPlace({ .name = "A", .initialNumberOfTokens = ~size_t(0), .onEnterAction = [&] { ++in; }, .input = true });
	try
	{
		e.incrementInputPlace("A");
		return 2;
	}
	catch (const PTN_Exception &)
	{
	}
	return in == 0 ? 0 : 1;
}
'''
repeat = 1
