From 5140e4817e12f7aec98cb6a44db4e38f78979233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 01/24] fix: firing a transition that requires no actions in
 execution hung on self loops

---
 PTN_Engine/Transition.cpp | 14 +++++++-------
 PTN_Engine/Transition.h   |  3 ---
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4ac0a5f..02ae129 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -90,12 +90,18 @@ bool Transition::execute()
 	}
 	else
 	{
-		performTransit();
+		exitActivationPlaces();
 		result = true;
 	}
 
+	// Unblock before entering the destination places: they can be activation places too.
 	blockStartingOnEnterActions(false);
 
+	if (result)
+	{
+		enterDestinationPlaces();
+	}
+
 	return result;
 }
 
@@ -363,12 +369,6 @@ bool Transition::noActionsInExecution() const
 	return true;
 }
 
-void Transition::performTransit() const
-{
-	exitActivationPlaces();
-	enterDestinationPlaces();
-}
-
 void Transition::exitActivationPlaces() const
 {
 	for (const Arc &activationArc : m_activationArcs)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index 41f8146..df1d5c2 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -156,9 +156,6 @@ private:
 	//!
 	bool noActionsInExecution() const;
 
-	//! Moves the tokens from the inputs to the outputs.
-	void performTransit() const;
-
 	std::vector<Arc> m_activationArcs;
 
 	//! Pointers to the controller's functions that evaluate if the transition can be fired.
-- 
2.43.0


From c7dae534e6255cc6f057e6a713b1c2e8bd7d0d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 02/24] fix: exception in a condition or on exit action left on
 enter actions blocked

---
 PTN_Engine/Transition.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 02ae129..f68f23b 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -84,14 +84,18 @@ bool Transition::execute()
 
 	blockStartingOnEnterActions(true);
 
-	if (!isActive())
+	try
 	{
-		result = false;
+		if (isActive())
+		{
+			exitActivationPlaces();
+			result = true;
+		}
 	}
-	else
+	catch (...)
 	{
-		exitActivationPlaces();
-		result = true;
+		blockStartingOnEnterActions(false);
+		throw;
 	}
 
 	// Unblock before entering the destination places: they can be activation places too.
-- 
2.43.0


From 5f0ad1079d562d7f810d46d782ae738a83a80777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 03/24] fix: deadlock between an input and the evaluation of a
 transition that requires no actions in execution

---
 PTN_Engine/Place.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 27a6f7b..f766d09 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -61,17 +61,20 @@ string Place::getName() const
 void Place::enterPlace(const size_t tokens)
 {
 	unique_lock guard(m_mutex);
-	increaseNumberOfTokens(tokens);
-	if (m_onEnterAction == nullptr)
-	{
-		return;
-	}
-	while (m_blockStartingOnEnterActions)
+	while (m_onEnterAction != nullptr && m_blockStartingOnEnterActions)
 	{
+		// The transition blocking the actions needs to access this place.
+		guard.unlock();
 		// TO DO make this wait period configurable
 		// add a max wait time after which an exception
 		// is thrown.
 		this_thread::sleep_for(100ms);
+		guard.lock();
+	}
+	increaseNumberOfTokens(tokens);
+	if (m_onEnterAction == nullptr)
+	{
+		return;
 	}
 	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
-- 
2.43.0


From 8528348dab1ab560ec67c5b15f3db5574d1dc976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 04/24] fix: restarting the event loop destroyed the barrier
 the previous thread could still be using

---
 PTN_Engine/EventLoop.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index f1b7028..4233e9a 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -64,6 +64,11 @@ void EventLoop::start(const bool log, ostream &o)
 	}
 	else
 	{
+		if (m_eventLoopThread.joinable())
+		{
+			// The previous thread may still be leaving the previous barrier.
+			m_eventLoopThread.join();
+		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
 		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
-- 
2.43.0


From 3165797236f39eb07adb6f086b237ce10ff5faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 05/24] fix: stop waited for the event loop sleep duration to
 elapse

---
 PTN_Engine/EventLoop.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 4233e9a..1633d14 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -47,6 +47,7 @@ void EventLoop::stop() noexcept
 	if (m_eventLoopThread.get_stop_token().stop_possible())
 	{
 		m_eventLoopThread.request_stop();
+		notifyNewEvent();
 		m_barrier->arrive_and_wait();
 	}
 }
@@ -103,7 +104,8 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 			shared_lock lock(m_sleepDurationMutex);
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
-									 [this] { return m_ptnEngine.getNewInputReceived(); });
+									 [this, &stopToken]
+									 { return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); });
 		}
 	}
 	m_eventLoopThreadRunning = false;
-- 
2.43.0


From 44c07a3df5d495d226655b97129f14df7e77e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 06/24] fix: setting the event loop sleep duration blocked
 until the running period elapsed

---
 PTN_Engine/EventLoop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 1633d14..469b7bd 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -101,9 +101,9 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			shared_lock lock(m_sleepDurationMutex);
+			const auto sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
-			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
+			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this, &stopToken]
 									 { return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); });
 		}
-- 
2.43.0


From a28ef6dae540de70639149aeb03af731fdf9a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 07/24] fix: data race between reading the properties of a
 place and token moves

---
 PTN_Engine/Place.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index f766d09..ae02b75 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -163,6 +163,7 @@ void Place::blockStartingOnEnterActions(const bool value)
 
 PlaceProperties Place::placeProperties() const
 {
+	shared_lock guard(m_mutex);
 	PlaceProperties placeProperties;
 	placeProperties.name = m_name;
 	placeProperties.onEnterActionFunctionName = m_onEnterActionName;
-- 
2.43.0


From a76fe2be6f7aad43d2cc025845a9797cbe1ab286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 08/24] fix: an action that threw was counted as being in
 execution forever

---
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 09e3d7d..3a9053c 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -27,7 +27,15 @@ using namespace std;
 void SingleThreadExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
 	++actionsInExecution;
-	action();
+	try
+	{
+		action();
+	}
+	catch (...)
+	{
+		--actionsInExecution;
+		throw;
+	}
 	--actionsInExecution;
 }
 
-- 
2.43.0


From 259eb5cc4a86f90292dc53f50803596445183254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 09/24] fix: addArc accepted weight 0 in arcs that cannot be
 fired with it

---
 PTN_Engine/Transition.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index f68f23b..64aae9a 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -228,6 +228,12 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 {
 	unique_lock guard(m_mutex);
 
+	// only activation arcs can have weight 0, meaning to reset the place
+	if (weight == 0 && type != ArcProperties::Type::ACTIVATION)
+	{
+		throw ZeroValueWeightException();
+	}
+
 	auto addArcTo = [&place, weight](auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
-- 
2.43.0


From fdc7c958a2c70adb8eb27c19df4ed74c3c88fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 10/24] fix: adding or removing a bidirectional arc could fail
 half way

---
 PTN_Engine/Transition.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 64aae9a..24a540a 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -234,7 +234,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 		throw ZeroValueWeightException();
 	}
 
-	auto addArcTo = [&place, weight](auto &placesContainer)
+	auto checkNoArcIn = [&place](const auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
@@ -243,6 +243,11 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 		{
 			throw PTN_Exception("Arc already exists");
 		}
+	};
+
+	auto addArcTo = [&place, weight, &checkNoArcIn](auto &placesContainer)
+	{
+		checkNoArcIn(placesContainer);
 		placesContainer.push_back({ place, weight });
 	};
 
@@ -260,6 +265,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	}
 	case BIDIRECTIONAL:
 	{
+		checkNoArcIn(m_destinationArcs);
 		addArcTo(m_activationArcs);
 		addArcTo(m_destinationArcs);
 		break;
@@ -281,22 +287,22 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 {
 	unique_lock guard(m_mutex);
 
-	auto removePlaceFrom = [&place](auto &placesContainer)
+	auto findPlaceIn = [&place](const auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
 
 		auto it = ranges::find_if(placesContainer, sameNameAs);
-		if (it != placesContainer.cend())
-		{
-			placesContainer.erase(it);
-		}
-		else
+		if (it == placesContainer.cend())
 		{
 			throw PTN_Exception("Cannot remove palce " + place->getName());
 		}
+		return it;
 	};
 
+	auto removePlaceFrom = [&findPlaceIn](auto &placesContainer)
+	{ placesContainer.erase(findPlaceIn(placesContainer)); };
+
 	using enum ArcProperties::Type;
 	switch (type)
 	{
@@ -311,6 +317,7 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
+		findPlaceIn(m_destinationArcs);
 		removePlaceFrom(m_activationArcs);
 		removePlaceFrom(m_destinationArcs);
 		break;
-- 
2.43.0


From fd0363e82061d22faf69c072eb77b0f5c14871b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 11/24] fix: deactivating a job queue raced with adding jobs,
 and terminated if its worker was joined already

---
 PTN_Engine/JobQueue/JobQueue.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index bde84e0..7984982 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -40,16 +40,20 @@ void JobQueue::activate()
 
 void JobQueue::deactivate() noexcept
 {
-	if (!m_isJobQueueActive)
 	{
-		return;
+		lock_guard l(m_jobQueueMutex);
+		if (!m_isJobQueueActive)
+		{
+			return;
+		}
+		// from here on, no other worker thread is launched
+		m_isJobQueueActive = false;
 	}
-	if (m_workerThread.get_stop_token().stop_possible())
+	if (m_workerThread.joinable())
 	{
 		m_workerThread.request_stop();
 		m_workerThread.join();
 	}
-	m_isJobQueueActive = false;
 }
 
 bool JobQueue::isActive() const
-- 
2.43.0


From 971b0cc7a2cc2f323d464f7dca3cd721baad082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 12/24] fix: exporting twice with the same exporter appended a
 second net to the document

---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index bc4127d..afd48ff 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -31,6 +31,7 @@ XML_FileExporter::~XML_FileExporter() = default;
 void XML_FileExporter::_export(const PTN_Engine &ptnEngine, const string &filePath)
 {
 	m_filePath = filePath;
+	m_document.reset();
 	m_rootNode = m_document.append_child("PTN-Engine");
 	m_rootNode.append_attribute("version").set_value("3.0");
 	m_rootNode.append_attribute("format").set_value("1");
-- 
2.43.0


From 71e59519a3f4b11caefa7495de3d5f7250fc14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 13/24] fix: failing to write the exported file was not
 reported

---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index afd48ff..458f291 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -18,6 +18,7 @@
 
 #include "XML/XML_FileExporter.h"
 #include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/PTN_Exception.h"
 #include <pugixml.hpp>
 #include <vector>
 
@@ -101,7 +102,10 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 
 void XML_FileExporter::saveFile() const
 {
-	m_document.save_file(m_filePath.c_str());
+	if (!m_document.save_file(m_filePath.c_str()))
+	{
+		throw PTN_Exception("Could not write to file " + m_filePath);
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From cd5f6f4778db7618838eef7977f08d23825c87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 14/24] fix: importing numbers of tokens and weights above
 LONG_MAX changed them

---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
index 4061133..e2a0a81 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
@@ -54,7 +54,7 @@ collectArcAttributes(const xml_node &transition, const string &attribute, const
 		const string weightStr(activationCondition.attribute("weight").value());
 		if (!string(activationCondition.attribute("weight").value()).empty())
 		{
-			weight = static_cast<size_t>(atol(weightStr.c_str()));
+			weight = static_cast<size_t>(strtoull(weightStr.c_str(), nullptr, 10));
 		}
 
 		arcsProperties.emplace_back(weight, activationCondition.attribute("name").value(), activationConditionName,
@@ -138,7 +138,7 @@ vector<PlaceProperties> XML_FileImporter::importPlaces() const
 		size_t numberOfTokens = 0;
 		if (const string numberOfTokensStr = getAttributeValue(place, "tokens"); !numberOfTokensStr.empty())
 		{
-			numberOfTokens = static_cast<size_t>(atol(numberOfTokensStr.c_str()));
+			numberOfTokens = static_cast<size_t>(strtoull(numberOfTokensStr.c_str(), nullptr, 10));
 		}
 
 		placeProperties.name = getAttributeValue(place, "name");
-- 
2.43.0


From 50c36a883d87c356de54f8712d04ab3f4cb42def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 15/24] fix: actions still pending when their place was
 destroyed used it after it was freed

---
 PTN_Engine/Executor/DetachedExecutor.cpp     | 11 ++++++-----
 PTN_Engine/Executor/DetachedExecutor.h       |  3 ++-
 PTN_Engine/Executor/IActionsExecutor.h       | 11 ++++++++++-
 PTN_Engine/Executor/JobQueueExecutor.cpp     | 11 ++++++-----
 PTN_Engine/Executor/JobQueueExecutor.h       |  3 ++-
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 11 ++++++-----
 PTN_Engine/Executor/SingleThreadExecutor.h   |  3 ++-
 PTN_Engine/Place.cpp                         | 18 +++++++++++++-----
 PTN_Engine/Place.h                           |  9 +++++----
 9 files changed, 52 insertions(+), 28 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index c7ff828..63a5713 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -25,13 +25,14 @@ namespace ptne
 
 using namespace std;
 
-void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void DetachedExecutor::executeAction(const shared_ptr<const ActionFunction> &action,
+										const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	auto job = [&actionsInExecution, &action]()
+	++*actionsInExecution;
+	auto job = [actionsInExecution, action]()
 	{
-		action();
-		--actionsInExecution;
+		(*action)();
+		--*actionsInExecution;
 	};
 	auto t = thread(job);
 	t.detach();
diff --git a/PTN_Engine/Executor/DetachedExecutor.h b/PTN_Engine/Executor/DetachedExecutor.h
index 7316589..2e3ef31 100644
--- a/PTN_Engine/Executor/DetachedExecutor.h
+++ b/PTN_Engine/Executor/DetachedExecutor.h
@@ -26,7 +26,8 @@ namespace ptne
 class DetachedExecutor : public IActionsExecutor
 {
 public:
-    void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+    void executeAction(const std::shared_ptr<const ActionFunction> &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/IActionsExecutor.h b/PTN_Engine/Executor/IActionsExecutor.h
index 362157e..5bd7948 100644
--- a/PTN_Engine/Executor/IActionsExecutor.h
+++ b/PTN_Engine/Executor/IActionsExecutor.h
@@ -19,6 +19,8 @@
 #pragma once
 
 #include "PTN_Engine/PTN_Engine.h"
+#include <atomic>
+#include <memory>
 
 namespace ptne
 {
@@ -26,7 +28,14 @@ class IActionsExecutor
 {
 public:
 	virtual ~IActionsExecutor() = default;
-	virtual void executeAction(const ActionFunction &action, std::atomic<size_t> &counter) = 0;
+
+	//!
+	//! \brief Execute an action. Both parameters are shared, as the execution can outlive the place.
+	//! \param action
+	//! \param counter - number of actions in execution.
+	//!
+	virtual void executeAction(const std::shared_ptr<const ActionFunction> &action,
+							   const std::shared_ptr<std::atomic<size_t>> &counter) = 0;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index 51ddaec..2b5c00a 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -24,13 +24,14 @@ namespace ptne
 
 using namespace std;
 
-void JobQueueExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void JobQueueExecutor::executeAction(const shared_ptr<const ActionFunction> &action,
+										const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	auto f = [&actionsInExecution, &action]()
+	++*actionsInExecution;
+	auto f = [actionsInExecution, action]()
 	{
-		action();
-		--actionsInExecution;
+		(*action)();
+		--*actionsInExecution;
 	};
 	m_jobQueue.addJob(f);
 }
diff --git a/PTN_Engine/Executor/JobQueueExecutor.h b/PTN_Engine/Executor/JobQueueExecutor.h
index 36b451c..06316fb 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.h
+++ b/PTN_Engine/Executor/JobQueueExecutor.h
@@ -27,7 +27,8 @@ namespace ptne
 class JobQueueExecutor : public IActionsExecutor
 {
 public:
-	void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+	void executeAction(const std::shared_ptr<const ActionFunction> &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 
 private:
 	//! Job queue to dispatch actions.
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 3a9053c..68fee13 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -24,19 +24,20 @@ namespace ptne
 
 using namespace std;
 
-void SingleThreadExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void SingleThreadExecutor::executeAction(const shared_ptr<const ActionFunction> &action,
+										const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
+	++*actionsInExecution;
 	try
 	{
-		action();
+		(*action)();
 	}
 	catch (...)
 	{
-		--actionsInExecution;
+		--*actionsInExecution;
 		throw;
 	}
-	--actionsInExecution;
+	--*actionsInExecution;
 }
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.h b/PTN_Engine/Executor/SingleThreadExecutor.h
index 8f2448e..2fcfc3c 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.h
+++ b/PTN_Engine/Executor/SingleThreadExecutor.h
@@ -26,7 +26,8 @@ namespace ptne
 class SingleThreadExecutor : public IActionsExecutor
 {
 public:
-    void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+    void executeAction(const std::shared_ptr<const ActionFunction> &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index ae02b75..068e733 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -30,14 +30,22 @@ namespace ptne
 {
 using namespace std;
 
+namespace
+{
+shared_ptr<const ActionFunction> shareAction(const ActionFunction &action)
+{
+	return action != nullptr ? make_shared<const ActionFunction>(action) : nullptr;
+}
+}
+
 Place::~Place() = default;
 
 Place::Place(const PlaceProperties &placeProperties, const shared_ptr<IActionsExecutor> &executor)
 : m_name(placeProperties.name)
 , m_onEnterActionName(placeProperties.onEnterActionFunctionName)
-, m_onEnterAction(placeProperties.onEnterAction)
+, m_onEnterAction(shareAction(placeProperties.onEnterAction))
 , m_onExitActionName(placeProperties.onExitActionFunctionName)
-, m_onExitAction(placeProperties.onExitAction)
+, m_onExitAction(shareAction(placeProperties.onExitAction))
 , m_numberOfTokens(placeProperties.initialNumberOfTokens)
 , m_isInputPlace(placeProperties.input)
 , m_actionsExecutor(executor)
@@ -153,7 +161,7 @@ string Place::getOnExitActionName() const
 
 bool Place::isOnEnterActionInExecution() const
 {
-	return m_onEnterActionsInExecution > 0;
+	return *m_onEnterActionsInExecution > 0;
 }
 
 void Place::blockStartingOnEnterActions(const bool value)
@@ -169,8 +177,8 @@ PlaceProperties Place::placeProperties() const
 	placeProperties.onEnterActionFunctionName = m_onEnterActionName;
 	placeProperties.onExitActionFunctionName = m_onExitActionName;
 	placeProperties.initialNumberOfTokens = m_numberOfTokens;
-	placeProperties.onEnterAction = m_onEnterAction;
-	placeProperties.onExitAction = m_onExitAction;
+	placeProperties.onEnterAction = m_onEnterAction ? *m_onEnterAction : nullptr;
+	placeProperties.onExitAction = m_onExitAction ? *m_onExitAction : nullptr;
 	placeProperties.input = m_isInputPlace;
 	return placeProperties;
 }
diff --git a/PTN_Engine/Place.h b/PTN_Engine/Place.h
index b07186a..f9a84ae 100755
--- a/PTN_Engine/Place.h
+++ b/PTN_Engine/Place.h
@@ -21,6 +21,7 @@
 #include "PTN_Engine/PTN_Engine.h"
 #include <atomic>
 #include <functional>
+#include <memory>
 #include <shared_mutex>
 
 namespace ptne
@@ -147,22 +148,22 @@ private:
 	size_t m_numberOfTokens = 0;
 
 	//! Function to be called when a token enters the place.
-	const ActionFunction m_onEnterAction = nullptr;
+	const std::shared_ptr<const ActionFunction> m_onEnterAction;
 
 	//! A label for the on enter action.
 	std::string m_onEnterActionName;
 
 	//! Counter of on enter functions being executed.
-	std::atomic<size_t> m_onEnterActionsInExecution = 0;
+	const std::shared_ptr<std::atomic<size_t>> m_onEnterActionsInExecution = std::make_shared<std::atomic<size_t>>(0);
 
 	//! Function to be called when a token leaves the place.
-	const ActionFunction m_onExitAction = nullptr;
+	const std::shared_ptr<const ActionFunction> m_onExitAction;
 
 	//! A label for the on exite action.
 	std::string m_onExitActionName;
 
 	//! Counter of on exit functions being executed.
-	std::atomic<size_t> m_onExitActionsInExecution = 0;
+	const std::shared_ptr<std::atomic<size_t>> m_onExitActionsInExecution = std::make_shared<std::atomic<size_t>>(0);
 
 	//! Actions executor.
 	std::weak_ptr<IActionsExecutor> m_actionsExecutor;
-- 
2.43.0


From a1ef7bd859673e7f6814ef4a3e90808c8dd7ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 16/24] fix: changing the actions thread option discarded the
 actions waiting in the job queue

---
 PTN_Engine/PTN_EngineImp.cpp | 9 ++++++++-
 PTN_Engine/PTN_EngineImp.h   | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index f4429b1..34139d5 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -130,7 +130,14 @@ void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTI
 		return;
 	}
 
-	m_actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
+	auto itExecutor = m_previousActionsExecutors.find(actionsThreadOption);
+	shared_ptr<IActionsExecutor> actionsExecutor = itExecutor != m_previousActionsExecutors.cend() ?
+												   itExecutor->second :
+												   ActionsExecutorFactory::createExecutor(actionsThreadOption);
+	// The actions that were already dispatched must still be executed.
+	m_previousActionsExecutors[m_actionsThreadOption] = m_actionsExecutor;
+
+	m_actionsExecutor = actionsExecutor;
 	m_actionsThreadOption = actionsThreadOption;
 
 	m_places.setActionsExecutor(m_actionsExecutor);
diff --git a/PTN_Engine/PTN_EngineImp.h b/PTN_Engine/PTN_EngineImp.h
index 143a4b9..d32c916 100755
--- a/PTN_Engine/PTN_EngineImp.h
+++ b/PTN_Engine/PTN_EngineImp.h
@@ -28,6 +28,7 @@
 #include "PTN_Engine/PlacesManager.h"
 #include "PTN_Engine/TransitionsManager.h"
 #include <atomic>
+#include <map>
 #include <shared_mutex>
 
 namespace ptne
@@ -196,6 +197,9 @@ private:
 	//! Executes the actions associated to each place, when tokens enter or exit them.z
 	std::shared_ptr<IActionsExecutor> m_actionsExecutor;
 
+	//! Executors of the options used before, that may still have actions to be executed.
+	std::map<PTN_Engine::ACTIONS_THREAD_OPTION, std::shared_ptr<IActionsExecutor>> m_previousActionsExecutors;
+
 	//! Determines how the actions will be executed.
 	PTN_Engine::ACTIONS_THREAD_OPTION m_actionsThreadOption;
 
-- 
2.43.0


From fcefd094686f8da32059156c89d6d3f48f7f3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 17/24] fix: execute() failing to start the event loop's thread
 left the engine running for ever

---
 PTN_Engine/EventLoop.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 469b7bd..e260f91 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -72,7 +72,16 @@ void EventLoop::start(const bool log, ostream &o)
 		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
-		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		try
+		{
+			m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		}
+		catch (...)
+		{
+			// The thread could not be started.
+			m_eventLoopThreadRunning = false;
+			throw;
+		}
 	}
 }
 
-- 
2.43.0


From 1e0e4e15ba35da5487d1dc0cdd50d7a8ad6ef5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 18/24] fix: createPlace could fail and leave the input place
 in the net

---
 PTN_Engine/PlacesManager.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/PTN_Engine/PlacesManager.cpp b/PTN_Engine/PlacesManager.cpp
index c37bab6..b82ff15 100755
--- a/PTN_Engine/PlacesManager.cpp
+++ b/PTN_Engine/PlacesManager.cpp
@@ -38,10 +38,20 @@ bool PlacesManager::contains(const string &itemName) const
 void PlacesManager::insert(const shared_ptr<Place> &spPlace)
 {
 	unique_lock itemsGuard(m_itemsMutex);
-	ManagerBase<Place>::insert(spPlace);
-	if (spPlace->isInputPlace())
+	// Nothing may fail once the place has been inserted.
+	m_inputPlaces.push_back(spPlace);
+	try
 	{
-		m_inputPlaces.push_back(spPlace);
+		ManagerBase<Place>::insert(spPlace);
+	}
+	catch (...)
+	{
+		m_inputPlaces.pop_back();
+		throw;
+	}
+	if (!spPlace->isInputPlace())
+	{
+		m_inputPlaces.pop_back();
 	}
 }
 
-- 
2.43.0


From ad7763802b372e2579f33344114bdb900bf69a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 19/24] fix: the job queue stopped working for good when memory
 ran out while its worker was started

---
 PTN_Engine/JobQueue/JobQueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index 7984982..b35cf7d 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -71,8 +71,9 @@ void JobQueue::launch()
 		{
 			m_workerThread = jthread(bind_front(&JobQueue::run, this));
 		}
-		catch (const std::system_error &)
+		catch (...)
 		{
+			// The jobs stay in the queue until the next attempt.
 			m_isJobQueueRunning = false;
 		}
 	}
-- 
2.43.0


From 719f7585e50c5c1f59f0df30d48e4e53dcae2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 20/24] fix: an action that could not be dispatched counted as
 being in execution for ever

---
 PTN_Engine/Executor/DetachedExecutor.cpp | 13 +++++++++++--
 PTN_Engine/Executor/JobQueueExecutor.cpp | 11 ++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index 63a5713..3e21494 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -34,8 +34,17 @@ void DetachedExecutor::executeAction(const shared_ptr<const ActionFunction> &act
 		(*action)();
 		--*actionsInExecution;
 	};
-	auto t = thread(job);
-	t.detach();
+	try
+	{
+		auto t = thread(job);
+		t.detach();
+	}
+	catch (...)
+	{
+		// The action is not going to be executed.
+		--*actionsInExecution;
+		throw;
+	}
 }
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index 2b5c00a..734a55b 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -33,7 +33,16 @@ void JobQueueExecutor::executeAction(const shared_ptr<const ActionFunction> &act
 		(*action)();
 		--*actionsInExecution;
 	};
-	m_jobQueue.addJob(f);
+	try
+	{
+		m_jobQueue.addJob(f);
+	}
+	catch (...)
+	{
+		// The action is not going to be executed.
+		--*actionsInExecution;
+		throw;
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From dba18cc77c95b7286de0edcdd5df2f348c7e443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 21/24] fix: memory running out could leave a bidirectional arc
 half added or half removed

---
 PTN_Engine/Transition.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 24a540a..17759e9 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -267,7 +267,15 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	{
 		checkNoArcIn(m_destinationArcs);
 		addArcTo(m_activationArcs);
-		addArcTo(m_destinationArcs);
+		try
+		{
+			addArcTo(m_destinationArcs);
+		}
+		catch (...)
+		{
+			m_activationArcs.pop_back();
+			throw;
+		}
 		break;
 	}
 	case DESTINATION:
@@ -317,9 +325,9 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
-		findPlaceIn(m_destinationArcs);
+		const auto itDestination = findPlaceIn(m_destinationArcs);
 		removePlaceFrom(m_activationArcs);
-		removePlaceFrom(m_destinationArcs);
+		m_destinationArcs.erase(itDestination);
 		break;
 	}
 	case DESTINATION:
-- 
2.43.0


From 876c598c2f30b2b42a6c8a0d6f154f108f3a2212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 22/24] fix: the event loop was not woken for an input whose
 on-enter action failed

---
 PTN_Engine/PTN_EngineImp.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index 34139d5..ccbe120 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -111,7 +111,17 @@ size_t PTN_EngineImp::getNumberOfTokens(const string &place) const
 
 void PTN_EngineImp::incrementInputPlace(const string &place)
 {
-	m_places.incrementInputPlace(place);
+	try
+	{
+		m_places.incrementInputPlace(place);
+	}
+	catch (...)
+	{
+		// The token can have been added although its action failed.
+		m_newInputReceived = true;
+		m_eventLoop.notifyNewEvent();
+		throw;
+	}
 	m_newInputReceived = true;
 	m_eventLoop.notifyNewEvent();
 }
-- 
2.43.0


From 5d5b12501dd1967c2e6803d4166c5dfe25260a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 23/24] fix: registering a function whose copy could not be
 made left an empty function under its name

---
 PTN_Engine/ManagedContainer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PTN_Engine/ManagedContainer.h b/PTN_Engine/ManagedContainer.h
index 386c986..d0728b0 100755
--- a/PTN_Engine/ManagedContainer.h
+++ b/PTN_Engine/ManagedContainer.h
@@ -60,7 +60,7 @@ public:
 			throw RepeatedFunctionException(name);
 		}
 
-		m_items[name] = item;
+		m_items.emplace(name, std::move(item));
 	}
 
 	//!
-- 
2.43.0


From 4f98d2bb34d3a948f59654d93450ae873e4bc2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 24/24] fix: watchdog periods of centuries made the event loop
 spin

---
 PTN_Engine/EventLoop.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index e260f91..9b9c937 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -19,6 +19,8 @@
 #include "PTN_Engine/EventLoop.h"
 #include "PTN_Engine/IPTN_EngineEL.h"
 #include "PTN_Engine/PTN_Exception.h"
+#include <algorithm>
+#include <chrono>
 #include <thread>
 
 namespace ptne
@@ -110,7 +112,8 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			const auto sleepDuration = getSleepDuration();
+			// Beyond a century the time point to wait for could not be represented.
+			const auto sleepDuration = clamp<SleepDuration>(getSleepDuration(), SleepDuration::zero(), 24h * 36500);
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this, &stopToken]
-- 
2.43.0

