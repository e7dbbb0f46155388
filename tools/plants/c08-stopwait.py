id = 'c08-stop-waits'
prop = 'C08'
needs = 'stop() while an action is blocked'
what = 'stop() waits for on-enter actions in execution.'
def edit(f):
    f('PTN_EngineImp.cpp', '\tm_eventLoop.stop();', '\tm_eventLoop.stop();\n\tm_places.awaitActions();')
    f('PlacesManager.cpp', 'void PlacesManager::clearInputPlaces() const', 'void PlacesManager::awaitActions() const noexcept\n{\n\tconst auto busy = [this]\n\t{\n\t\tshared_lock itemsGuard(m_itemsMutex);\n\t\treturn ranges::any_of(m_items, [](const auto &item) { return item.second->isOnEnterActionInExecution(); });\n\t};\n\twhile (busy())\n\t{\n\t\tthis_thread::sleep_for(1ms);\n\t}\n}\n\nvoid PlacesManager::clearInputPlaces() const')
    f('PlacesManager.cpp', 'using namespace std;', 'using namespace std;\nusing namespace std::chrono_literals;')
    f('PlacesManager.h', '\tvoid clearInputPlaces() const;', '\tvoid clearInputPlaces() const;\n\n\tvoid awaitActions() const noexcept;')
    f('PlacesManager.h', '#include <shared_mutex>', '#include <algorithm>\n#include <chrono>\n#include <shared_mutex>\n#include <thread>')
demo = r'''
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace ptne;
using namespace std::chrono_literals;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;
using Type = ArcProperties::Type;

int main()
{
	auto *e = new PTN_Engine(Mode::DETACHED);
	std::atomic<bool> go{ false }, done{ false }, in{ false };
	e->createPlace({ .name = "A", .onEnterAction = [&] { in = true; while (!go) usleep(1000); }, .input = true });
	std::thread([&] { e->execute(); e->incrementInputPlace("A"); while (!in) usleep(100); e->stop(); done = true; }).detach();
	for (int i = 0; i < 1000 && !done; ++i) usleep(10000);
	const bool ok = done;
	go = true;
	_exit(ok ? 0 : 1);
}
'''
repeat = 1
