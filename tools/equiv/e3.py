# permanent worker in the job queue; ordered shuffling by random keys; exceptions of other classes
def edit(f):
    f("JobQueue/JobQueue.cpp", """	unique_lock l(m_jobQueueMutex);
	while (!m_jobQueue.empty() && !stopToken.stop_requested())
	{
		ActionFunction job = m_jobQueue.back();
		m_jobQueue.pop_back();
		l.unlock();
		job();
		l.lock();
	}
	m_isJobQueueRunning = false;""", """	unique_lock l(m_jobQueueMutex);
	while (m_wake.wait(l, stopToken, [this] { return !m_jobQueue.empty(); }) && !stopToken.stop_requested())
	{
		{
			ActionFunction job = m_jobQueue.back();
			m_jobQueue.pop_back();
			l.unlock();
			job();
		}
		l.lock();
	}
	m_isJobQueueRunning = false;""")
    f("JobQueue/JobQueue.cpp", """		m_jobQueue.push_front(actionFunction);
	}""", """		m_jobQueue.push_front(actionFunction);
		m_wake.notify_one();
	}""")
    f("JobQueue/JobQueue.h", """	//! Thread where the jobs are executed.
""", """	std::condition_variable_any m_wake;

	//! Thread where the jobs are executed.
""")
    f("JobQueue/JobQueue.h", "#include <deque>", "#include <condition_variable>\n#include <deque>")
    f("TransitionsManager.cpp", """	random_device randomDevice;
	mt19937_64 seed(randomDevice());
	ranges::shuffle(enabledTransitions, seed);""", """	random_device randomDevice;
	vector<pair<uint64_t, weak_ptr<Transition>>> keyed;
	for (auto &t : enabledTransitions)
	{
		keyed.emplace_back(uint64_t(randomDevice()) << 32 | randomDevice(), t);
	}
	ranges::sort(keyed, {}, [](const auto &k) { return k.first; });
	for (size_t i = 0; i < keyed.size(); ++i)
	{
		enabledTransitions[i] = keyed[i].second;
	}""")
    f("PTN_EngineImp.cpp", """	bool firedAtLeastOneTransition = false;
	setNewInputReceived(false);

	if (log)
	{
		printState(o);
	}
""", """	setNewInputReceived(false);
	if (log)
	{
		printState(o);
	}
	size_t fired = 0;
""")
    f("PTN_EngineImp.cpp", """			firedAtLeastOneTransition |= enabledTransition->execute();
		}
	}
	return firedAtLeastOneTransition;""", """			if (enabledTransition->execute())
			{
				++fired;
			}
		}
	}
	return fired > 0;""")
    f("PlacesManager.cpp", "		throw InvalidNameException(place);", "		throw PTN_Exception(\"no such place: \" + place);", 0)
    f("Place.cpp", """	unique_lock guard(m_mutex);
	while (m_onEnterAction != nullptr && m_blockStartingOnEnterActions)
	{""", """	unique_lock guard(m_mutex);
	for (; m_onEnterAction != nullptr && m_blockStartingOnEnterActions;)
	{""")
    f("Place.cpp", "this_thread::sleep_for(100ms);", "this_thread::sleep_for(1ms);")
    f("Executor/DetachedExecutor.cpp", """		auto t = thread(job);
		t.detach();""", """		thread(job).detach();""")
    f("ImportExport/XML/src/XML/XML_FileImporter.cpp", """	if (const auto &result = m_document.load_file(filePath.c_str()); !result)
	{
		throw PTN_Exception(result.description());
	}""", """	ifstream file(filePath, ios::binary);
	if (!file)
	{
		throw PTN_Exception("cannot open " + filePath);
	}
	if (const auto &result = m_document.load(file); !result)
	{
		throw PTN_Exception(result.description());
	}""")
    f("ImportExport/XML/src/XML/XML_FileImporter.cpp", "#include <charconv>", "#include <charconv>\n#include <fstream>")
