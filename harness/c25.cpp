// C25: a call that runs out of memory or threads says so and leaves no trace.
#include "apimodel.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <new>
#include <system_error>

const char *vh_property = "C25";
using namespace api;

// ---- the fault injector: counts the allocations and thread starts of the calling thread, and fails one

namespace fault
{
thread_local long left = 0;      //!< the left-th resource taken fails
thread_local bool armed = false;
thread_local bool hit = false;
thread_local bool threads = true, memory = true;
std::atomic<uint64_t> memoryFaults{ 0 }, threadFaults{ 0 };

bool fails()
{
	if (!armed || --left > 0) return false;
	armed = false;
	hit = true;
	return true;
}
struct Arm
{
	explicit Arm(long k)
	{
		left = k;
		hit = false;
		armed = true;
	}
	~Arm()
	{
		armed = false;
	}
};
} // namespace fault

static void *take(size_t n, size_t align = 0)
{
	if (fault::armed && fault::memory && fault::fails())
	{
		++fault::memoryFaults;
		throw std::bad_alloc();
	}
	void *p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

// std::thread and std::jthread start their threads here
void std::thread::_M_start_thread(_State_ptr state, void (*depend)())
{
	if (fault::armed && fault::threads && fault::fails())
	{
		++fault::threadFaults;
		throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
	}
	using Fn = void (*)(std::thread *, _State_ptr, void (*)());
	static const Fn real = (Fn)dlsym(RTLD_NEXT, "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
	if (!real) vh::error("no std::thread::_M_start_thread");
	real(this, std::move(state), depend);
}

namespace
{
//! Calls f again and again, with its k-th allocation or thread start failing, k = 1, 2, ..., until it does without.
//! after(k): called after each failure.
void everyFault(const std::function<void()> &f, const std::string &what, const std::function<void(long)> &after)
{
	for (long k = 1;; ++k)
	{
		if (k > 5000) vh::fail("endless", what + " takes ever more memory");
		try
		{
			fault::Arm arm(k);
			f();
		}
		catch (const std::bad_alloc &)
		{
			VH_CHECK(fault::hit, "bad-alloc", what << " threw bad_alloc with memory left");
			vh::count("reported_faults");
			after(k);
			continue;
		}
		catch (const std::system_error &x)
		{
			VH_CHECK(fault::hit, "system-error", what << " threw " << x.what());
			vh::count("reported_faults");
			after(k);
			continue;
		}
		catch (const ptne::PTN_Exception &)
		{
			if (!fault::hit) throw; // its proper answer
			vh::count("reported_faults");
			after(k);
			continue;
		}
		if (fault::hit) vh::count("absorbed_faults");
		return;
	}
}

//! Histories of calls, each of them failing at all its points first; nothing may change.
void history(vh::Case &c, Rng &r)
{
	Api a((Mode)r.below(4));
	Fuzzer f(a, r, 1 + (int)r.below(6));
	f.invalidBias = (int)r.below(3) * 10;
	long points = 0;
	a.around = [&](const std::string &what, const std::function<void()> &call)
	{
		// increments and runs are followed below
		if (what.starts_with("increment") || (what == "execute" && a.m.mode == Mode::SINGLE_THREAD) || what == "stop")
			return call();
		everyFault(call, what,
		           [&](long k)
		           {
			           ++points;
			           a.compare(("after " + what + " failed at its " + std::to_string(k) + "th allocation or thread start").c_str());
			           vh::tick();
		           });
	};
	const int n = 10 + (int)r.below(c.thorough ? 200 : 60);
	for (int i = 0; i < n; ++i)
	{
		f.step();
		if (r.chance(1, 10))
		{
			// queries fail without effect, too
			everyFault([&] { (void)a.e->getPlacesProperties(); (void)a.e->getTransitionsProperties(); }, "introspection", [&](long) { ++points; });
			std::ostringstream o;
			everyFault([&] { a.e->printState(o); }, "printState", [&](long) { ++points; });
			a.compare("after failing queries");
		}
	}
	a.compare("at the end");
	if (a.m.running) a.stop();
	a.settle();
	vh::count("histories");
	vh::count("points_in_histories", (uint64_t)points);
	vh::count("accepted", (uint64_t)a.accepted);
	vh::count("firings", (uint64_t)a.firings);
	if (points) vh::distinct(vh::hcomb(a.hash, (uint64_t)points));
	if (c.index < 2) vh::sample(a.trail);
}

//! A chain of places with actions, run with faults in execute() and incrementInputPlace().
void runs(vh::Case &c, Rng &r)
{
	const Mode mode = (Mode)r.below(4);
	const int len = (int)r.range(1, 4);
	const bool rq = r.chance(2, 3), log = r.chance(1, 3);
	std::ostringstream d;
	std::vector<std::string> names{ "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE" };
	d << "runs with faults, " << game::modeName(mode) << " length " << len << (rq ? " requireNoActionsInExecution" : "");
	vh::describe(d.str());
	auto e = std::make_unique<PTN_Engine>(mode);
	e->setEventLoopSleepDuration(std::chrono::hours(1));
	std::deque<vh::Gate> entered(len + 1);
	std::ostringstream sink;
	auto P = [](int i) { return "place number " + std::to_string(i); };
	for (int i = 0; i <= len; ++i) e->createPlace({ .name = P(i), .onEnterAction = [&entered, i] { entered[i].add(); vh::tick(); }, .input = i == 0 });
	// what the watchdog is not there for: only the input's own action may hold a transition back
	for (int i = 0; i < len; ++i)
		e->createTransition({ .name = "transition number " + std::to_string(i), .activationArcs = { { .placeName = P(i) } }, .destinationArcs = { { .placeName = P(i + 1) } }, .requireNoActionsInExecution = rq });
	if (rq) e->setEventLoopSleepDuration(std::chrono::milliseconds(2));
	size_t in = 0;      // tokens accepted
	long actions = 0;   // on-enter actions of the input place due
	long points = 0;
	auto total = [&]
	{
		size_t t = 0;
		for (int i = 0; i <= len; ++i) t += e->getNumberOfTokens(P(i));
		return t;
	};
	bool running = false;
	auto rest = [&]
	{
		VH_CHECK(vh::await([&] { return e->getNumberOfTokens(P(len)) == in; }, 30), "stuck",
		         "the net does not go on after a fault: " << e->getNumberOfTokens(P(len)) << " of " << in << " tokens arrived, " << total() << " exist, " << d.str());
		for (int i = 1; i <= len; ++i)
			if (!vh::await([&] { return entered[i].value() >= (long)in; }, 30)) vh::fail("actions", "place " + std::to_string(i) + ": " + std::to_string(entered[i].value()) + " actions of " + std::to_string(in) + ", " + d.str());
		if (!vh::await([&] { return entered[0].value() >= actions; }, 30)) vh::fail("actions", "input place: " + std::to_string(entered[0].value()) + " actions of " + std::to_string(actions) + ", " + d.str());
		VH_CHECK(entered[0].value() == actions, "actions", "input place: " << entered[0].value() << " actions, expected " << actions << ", " << d.str());
	};
	const int steps = (int)r.range(3, 20);
	for (int s = 0; s < steps; ++s)
	{
		const int op = (int)r.below(5);
		if (op <= 1)
		{
			// start, from a state where every kind of fault has struck first
			if (running) continue;
			const size_t before = total();
			everyFault(
			[&]
			{
				if (log && mode == Mode::SINGLE_THREAD) e->execute(true, sink);
				else e->execute();
			},
			"execute",
			[&](long k)
			{
				++points;
				vh::count("failed_starts");
				VH_CHECK(!e->isEventLoopRunning(), "state", "the engine is running after execute() failed at its " << k << "th allocation or thread start, " << d.str());
				VH_CHECK(total() == before, "lost", "failing execute() changed the number of tokens, " << d.str());
			});
			running = mode != Mode::SINGLE_THREAD;
			VH_CHECK(e->isEventLoopRunning() == running, "state", d.str());
			if (!running) rest();
		}
		else if (op <= 3)
		{
			// an input; where it fails, its token may or may not have been taken, but its action is not run
			const bool only = r.chance(1, 2);
			const long upTo = only ? (long)r.range(1, 6) : 1000;
			for (long k = 1;; ++k)
			{
				// at rest, so that the tokens tell whether the input was taken
				if (running) rest();
				const size_t before = total();
				bool failed = false;
				try
				{
					if (k <= upTo)
					{
						fault::Arm arm(k);
						e->incrementInputPlace(P(0));
					}
					else
						e->incrementInputPlace(P(0));
				}
				catch (const std::bad_alloc &) { failed = true; }
				catch (const std::system_error &) { failed = true; }
				catch (const ptne::PTN_Exception &) { failed = true; }
				if (failed)
				{
					++points;
					vh::count("failed_inputs");
					size_t now = before;
					if (running)
					{
						// the loop may be moving the token: seen anywhere, it has to arrive by itself
						bool seen = false;
						for (int i = 0; i < 20 && !seen; ++i)
						{
							seen = total() > before;
							if (!seen) std::this_thread::sleep_for(std::chrono::microseconds(200));
						}
						if (seen)
							now = before + 1;
						else
						{
							e->stop();
							now = total();
							e->execute();
						}
					}
					else
						now = total();
					VH_CHECK(now == before || now == before + 1, "tokens", "a failing input changed the number of tokens from " << before << " to " << now << ", " << d.str());
					in += now - before;
					if (now != before) vh::count("failed_inputs_counted");
					continue;
				}
				++in;
				++actions;
				if (fault::hit && k <= upTo)
				{
					// a fault that was absorbed: the action may wait for the next one
					vh::count("absorbed_faults");
					++in;
					++actions;
					if (running) vh::await([&] { return e->getNumberOfTokens(P(len)) + 1 >= in - 1; }, 0.2);
					e->incrementInputPlace(P(0));
				}
				break;
			}
			fault::hit = false;
			if (running) rest();
		}
		else if (running)
		{
			rest();
			e->stop();
			running = false;
		}
	}
	if (!running) e->execute();
	rest();
	e->stop();
	VH_CHECK(total() == in, "tokens", d.str());
	e.reset();
	vh::count("runs_with_faults");
	vh::count("points_in_runs", (uint64_t)points);
	vh::distinct(vh::hcomb(r.next(), (uint64_t)points));
}

//! Export and import with every point failing.
void files(vh::Case &c, Rng &r)
{
	Api a((Mode)r.below(4));
	Fuzzer f(a, r, 1 + (int)r.below(3));
	f.invalidBias = 0;
	const int n = 10 + (int)r.below(25);
	for (int i = 0; i < n; ++i) f.step();
	if (a.m.running) a.stop();
	a.settle();
	const std::string file = c.tmp + "/net.xml";
	auto read = [&]
	{
		std::ifstream i(file, std::ios::binary);
		return std::string(std::istreambuf_iterator<char>(i), {});
	};
	auto ex = ptne::FileExporterFactory::createXMLFileExporter();
	ex->_export(*a.e, file);
	const std::string good = read();
	long points = 0;
	everyFault([&] { ex->_export(*a.e, file); }, "export", [&](long) { ++points; a.compare("after a failing export"); });
	VH_CHECK(read() == good, "export", "the document differs after failing exports, " << a.trail);
	// import: what a failing import has built is a net within the rules; cleared, it leaves nothing behind
	PTN_Engine b(Mode::SINGLE_THREAD);
	for (auto &[name, id] : a.m.actions) b.registerAction(name, a.fn->action(id));
	for (auto &[name, id] : a.m.conditions) b.registerCondition(name, a.fn->condition(id));
	auto im = ptne::FileImporterFactory::createXMLFileImporter();
	bool imported = false;
	std::set<std::pair<std::string, size_t>> built; // a file's names end at a NUL
	for (auto &[n, p] : a.m.places) built.insert({ n.c_str(), p.tokens });
	try
	{
		everyFault([&] { im->_import(file, b); }, "import",
		           [&](long)
		           {
			           ++points;
			           const auto pp = b.getPlacesProperties();
			           for (auto &p : pp) VH_CHECK(built.contains({ p.name, p.initialNumberOfTokens }), "import", "a failing import made " << quoted(p.name) << " " << a.trail);
			           b.clearNet();
			           VH_CHECK(b.getPlacesProperties().empty() && b.getTransitionsProperties().empty(), "import", a.trail);
		           });
		imported = true;
	}
	catch (const ptne::PTN_Exception &)
	{
		// nets with anonymous conditions or names with NUL cannot be imported
	}
	if (imported)
	{
		PTN_Engine w(Mode::SINGLE_THREAD);
		for (auto &[name, id] : a.m.actions) w.registerAction(name, a.fn->action(id));
		for (auto &[name, id] : a.m.conditions) w.registerCondition(name, a.fn->condition(id));
		ptne::FileImporterFactory::createXMLFileImporter()->_import(file, w);
		auto text = [](const PTN_Engine &x)
		{
			std::set<std::string> s;
			for (auto &p : x.getPlacesProperties()) s.insert("P" + p.name + "=" + std::to_string(p.initialNumberOfTokens) + p.onEnterActionFunctionName + "/" + p.onExitActionFunctionName);
			for (auto &t : x.getTransitionsProperties())
			{
				std::string o = "T" + t.name;
				for (auto *l : { &t.activationArcs, &t.destinationArcs, &t.inhibitorArcs })
				{
					std::set<std::string> q;
					for (auto &y : *l) q.insert(y.placeName + ":" + std::to_string(y.weight));
					o += "|";
					for (auto &y : q) o += y + " ";
				}
				for (auto &y : t.additionalConditionsNames) o += "?" + y;
				s.insert(o + (t.requireNoActionsInExecution ? "!" : ""));
			}
			return s;
		};
		VH_CHECK(text(b) == text(w), "import", "the net imported after failing imports differs, " << a.trail);
		vh::count("imports_with_faults");
	}
	vh::count("points_in_files", (uint64_t)points);
	vh::distinct(vh::hcomb(a.hash, (uint64_t)points));
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	const int k = (int)r.below(10);
	if (k < 5) history(c, r);
	else if (k < 9) runs(c, r);
	else files(c, r);
	vh::count("memory_faults", fault::memoryFaults.exchange(0));
	vh::count("thread_faults", fault::threadFaults.exchange(0));
}
