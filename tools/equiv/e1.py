# containers, locks, checks in another order, helpers
def edit(f):
    f("ManagerBase.h", "std::unordered_map<std::string", "std::map<std::string")
    f("ManagerBase.h", "#include <unordered_map>", "#include <map>\n#include <unordered_map>")
    f("ManagedContainer.h", "std::unordered_map<std::string, T> m_items;", "std::map<std::string, T> m_items;")
    f("ManagedContainer.h", "#include <unordered_map>", "#include <map>\n#include <unordered_map>")
    f("Transition.cpp", """	if (!checkInhibitorPlaces())
	{
		return false;
	}

	if (!checkActivationPlaces())
	{
		return false;
	}

	return true;""", """	return checkActivationPlaces() && checkInhibitorPlaces();""")
    f("PTN_EngineImpProxy.cpp", "shared_lock guard", "unique_lock guard", 0)
    f("PTN_EngineImpProxy.h", "mutable std::shared_mutex m_mutex", "mutable std::shared_mutex m_mutex")
    f("PTN_EngineImp.cpp", """	m_newInputReceived = true;
	m_eventLoop.notifyNewEvent();""", """	setNewInputReceived(true);
	m_eventLoop.notifyNewEvent();""")
    f("PTN_EngineImp.cpp", """	m_transitions.clear();
	m_places.clear();""", """	m_places.clear();
	m_transitions.clear();""")
    f("PlacesManager.cpp", """	o << "Place; Tokens" << endl;
	for (const auto &[placeName, place] : m_items)
	{
		o << placeName.c_str() << ": " << place->getNumberOfTokens() << endl;
	}
	o << endl << endl;""", """	ostringstream s;
	s << "Place; Tokens\\n";
	for (const auto &[placeName, place] : m_items)
	{
		s << placeName.c_str() << ": " << place->getNumberOfTokens() << "\\n";
	}
	s << "\\n\\n";
	o << s.str() << flush;""")
    f("PlacesManager.cpp", "#include <mutex>", "#include <mutex>\n#include <sstream>")
    f("Place.cpp", """	if (tokens > ULLONG_MAX - m_numberOfTokens)
	{
		throw OverflowException(tokens);
	}

	m_numberOfTokens += tokens;""", """	size_t sum = 0;
	if (__builtin_add_overflow(m_numberOfTokens, tokens, &sum))
	{
		throw OverflowException(tokens);
	}
	m_numberOfTokens = sum;""")
    f("Place.cpp", """	if (tokens == 0) // reset
	{
		m_numberOfTokens = 0;
	}
	else
	{
		m_numberOfTokens -= tokens;
	}""", """	const bool reset = tokens == 0;
	m_numberOfTokens = reset ? 0 : m_numberOfTokens - tokens;""")
    f("TransitionsManager.cpp", """	random_device randomDevice;
	mt19937_64 seed(randomDevice());
	ranges::shuffle(enabledTransitions, seed);""", """	thread_local mt19937_64 generator{ random_device{}() };
	for (size_t i = enabledTransitions.size(); i > 1; --i)
	{
		swap(enabledTransitions[i - 1], enabledTransitions[uniform_int_distribution<size_t>(0, i - 1)(generator)]);
	}""")
