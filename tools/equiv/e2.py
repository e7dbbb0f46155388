# the event loop joins its thread, waits in slices; a permanent job queue worker
def edit(f):
    f("EventLoop.cpp", """		m_eventLoopThread.request_stop();
		notifyNewEvent();
		m_barrier->arrive_and_wait();""", """		m_eventLoopThread.request_stop();
		notifyNewEvent();
		m_eventLoopThread.join();""")
    f("EventLoop.cpp", """	m_eventLoopThreadRunning = false;
	m_barrier->arrive_and_wait();""", """	m_eventLoopThreadRunning = false;""")
    f("EventLoop.cpp", """	if (!isRunning())
	{
		return;
	}

	if (m_event""", """	if (!m_eventLoopThread.joinable())
	{
		return;
	}

	if (m_event""")
    f("EventLoop.cpp", """			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
									 [this, &stopToken]
									 { return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); });""", """			const auto wake = chrono::steady_clock::now() + sleepDuration;
			while (!stopToken.stop_requested() && !m_ptnEngine.getNewInputReceived() && chrono::steady_clock::now() < wake)
			{
				m_eventNotifier.wait_until(eventNotifierGuard, min(wake, chrono::steady_clock::now() + 20ms));
			}""")
    f("EventLoop.cpp", "m_eventNotifier.notify_all();", "m_eventNotifier.notify_one();")
    f("JobQueue/JobQueue.cpp", """		ActionFunction job = m_jobQueue.back();
		m_jobQueue.pop_back();""", """		const ActionFunction job(std::move(m_jobQueue.front()));
		m_jobQueue.pop_front();""")
    f("JobQueue/JobQueue.cpp", "m_jobQueue.push_front(actionFunction);", "m_jobQueue.emplace_back(actionFunction);")
    f("Transition.cpp", "	for (const Arc &activationArc : m_activationArcs)\n	{\n		const WeakPtrPlace &activationPlace = activationArc.place;\n		const size_t activationWeight = activationArc.weight;\n\n		if (Shared", "	for (const Arc &activationArc : m_activationArcs | views::reverse)\n	{\n		const WeakPtrPlace &activationPlace = activationArc.place;\n		const size_t activationWeight = activationArc.weight;\n\n		if (Shared")
    f("Transition.cpp", "	for (const Arc &destinationArc : m_destinationArcs)", "	for (const Arc &destinationArc : m_destinationArcs | views::reverse)")
    f("Transition.cpp", "#include <mutex>", "#include <mutex>\n#include <ranges>")
    f("TransitionsManager.cpp", "		if (transition->isEnabled())\n", "		if (const bool enabled = transition->isEnabled(); enabled)\n")
    f("ImportExport/XML/src/XML/XML_FileExporter.cpp", "value.set", "value.set") if False else None
    f("ImportExport/XML/src/XML/XML_FileExporter.cpp", """set_value(placeProperties.input ? true : false)""", """set_value(placeProperties.input ? "true" : "false")""")
    f("ImportExport/XML/src/XML/XML_FileExporter.cpp", """.set_value(to_string(arcProperties.weight).c_str())""", """.set_value(static_cast<unsigned long long>(arcProperties.weight))""")
    f("ImportExport/IFileImporter.cpp", """	for (const auto &placeProperties : importPlaces())
	{
		ptnEngine.createPlace(placeProperties);
	}

	for (const auto &transitionProperties : importTransitions())
	{
		ptnEngine.createTransition(transitionProperties);
	}

	for (const auto &arcsProperties : importArcs())
	{
		ptnEngine.addArc(arcsProperties);
	}""", """	const auto places = importPlaces();
	const auto transitions = importTransitions();
	const auto arcs = importArcs();
	for (size_t i = 0; i < places.size(); ++i)
	{
		ptnEngine.createPlace(places[i]);
	}
	for (size_t i = 0; i < transitions.size(); ++i)
	{
		ptnEngine.createTransition(transitions[i]);
	}
	for (size_t i = 0; i < arcs.size(); ++i)
	{
		ptnEngine.addArc(arcs[i]);
	}""")
    f("PTN_EngineImp.cpp", """	m_newInputReceived = true;
	m_eventLoop.notifyNewEvent();""", """	m_newInputReceived = true;
	if (isEventLoopRunning())
	{
		m_eventLoop.notifyNewEvent();
	}""")
