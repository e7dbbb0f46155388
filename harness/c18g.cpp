// C18: whether lives of engines leave anything behind, over very many of them.
// A process lives the same life again and again, each time with names never used before; what it holds is
// looked at after 8, 20, 50, 125, ... lives, so that a leak per life shows as well as a table that doubles.
#include "game.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <dirent.h>
#include <sanitizer/allocator_interface.h>
#include <sstream>
#include <unistd.h>

const char *vh_property = "C18";
using namespace game;
using namespace std::chrono_literals;

namespace
{
const Mode modes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };

int entries(const char *dir)
{
	int n = 0;
	DIR *d = opendir(dir);
	if (!d) return -1;
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}

struct Life
{
	std::atomic<long> live{ 0 }, triggered{ 0 }, ran{ 0 };

	struct Fn
	{
		explicit Fn(Life &l)
		: life(&l)
		{
			++life->live;
		}
		Fn(const Fn &o)
		: life(o.life)
		{
			++life->live;
		}
		~Fn() { --life->live; }
		Fn &operator=(const Fn &) = delete;
		void operator()() const { ++life->ran; }
		Life *life;
	};

	void refused(const std::function<void()> &f)
	{
		try
		{
			f();
		}
		catch (const ptne::PTN_Exception &)
		{
			return;
		}
		vh::fail("invalid-call-accepted", "a call that has to be refused was accepted");
	}

	void lead(Mode mode, vh::Rng r, long number, const std::string &tmp, bool files)
	{
		char salt[32];
		snprintf(salt, sizeof salt, " of life number %08ld", number);
		const auto name = [&](const std::string &s, int i) { return s + std::to_string(i) + salt; };
		PTN_Engine e(mode);
		e.setEventLoopSleepDuration(1ms);
		const int nets = (int)r.range(1, 2);
		for (int n = 0; n < nets; ++n)
		{
			const int nP = (int)r.range(2, 5), nT = (int)r.range(1, 4);
			const auto reg = [&](const std::string &s, int i) { return name(s + std::to_string(n) + "-", i); };
			for (int i = 0; i < 3; ++i)
			{
				e.registerAction(reg("action", i), Fn(*this));
				e.registerCondition(reg("condition", i), [f = Fn(*this)] { return f.life != nullptr; });
			}
			for (int i = 0; i < nP; ++i)
				e.createPlace({ .name = name("P", i), .initialNumberOfTokens = 3, .onEnterActionFunctionName = r.chance(1, 2) ? reg("action", (int)r.below(3)) : "",
								.onExitActionFunctionName = r.chance(1, 3) ? reg("action", (int)r.below(3)) : "", .input = i == 0 });
			e.createPlace({ .name = name("F", 0), .initialNumberOfTokens = (size_t)r.range(3, 9) });
			for (int i = 0; i < nT; ++i)
			{
				ptne::TransitionProperties t;
				t.name = name("T", i);
				t.activationArcs = { { .weight = 1, .placeName = name("F", 0) }, { .weight = 1, .placeName = name("P", (int)r.below(nP)) } };
				t.destinationArcs = { { .weight = 2, .placeName = name("P", (int)r.below(nP)) } };
				if (r.chance(1, 2)) t.additionalConditionsNames = { reg("condition", (int)r.below(3)) };
				if (r.chance(1, 3)) t.additionalConditions = { [f = Fn(*this)] { return f.life != nullptr; } };
				t.requireNoActionsInExecution = r.chance(1, 4);
				e.createTransition(t);
			}
			e.addArc({ .weight = 2, .placeName = name("P", 1), .transitionName = name("T", 0), .type = ptne::ArcProperties::Type::INHIBITOR });
			e.removeArc({ .weight = 2, .placeName = name("P", 1), .transitionName = name("T", 0), .type = ptne::ArcProperties::Type::INHIBITOR });
			refused([&] { e.createPlace({ .name = name("P", 0) }); });
			refused([&] { e.createTransition({ .name = name("T", 0) }); });
			refused([&] { e.createPlace({ .name = name("X", 0), .onEnterActionFunctionName = name("unknown", 0) }); });
			refused([&] { e.createTransition({ .name = name("X", 0), .activationArcs = { { .placeName = name("nowhere", 0) } } }); });
			refused([&] { e.incrementInputPlace(name("nowhere", 1)); });
			refused([&] { (void)e.getNumberOfTokens(name("nowhere", 2)); });
			if (files)
			{
				const std::string f = tmp + "/net.xml";
				ptne::FileExporterFactory::createXMLFileExporter()->_export(e, f);
				PTN_Engine other(Mode::SINGLE_THREAD);
				refused([&] { ptne::FileImporterFactory::createXMLFileImporter()->_import(f, other); });
				refused([&] { ptne::FileImporterFactory::createXMLFileImporter()->_import(f + salt, other); });
			}
			for (int k = (int)r.range(1, 2); k > 0; --k)
			{
				std::ostringstream log;
				e.execute(k == 1, log);
				for (int i = 0; i < 3; ++i) e.incrementInputPlace(name("P", 0));
				if (mode != Mode::SINGLE_THREAD)
				{
					refused([&] { e.execute(); });
					e.stop();
				}
			}
			std::ostringstream o;
			e.printState(o);
			(void)e.getPlacesProperties().size();
			(void)e.getTransitionsProperties().size();
			if (r.chance(1, 2) || n + 1 < nets) e.clearNet();
		}
		if (r.chance(1, 2)) e.setActionsThreadOption(modes[r.below(4)]);
	}
};
} // namespace

void vh_case(vh::Case &c, vh::Rng &rng)
{
	noise::off();
	const uint64_t seed = rng.next();
	const Mode mode = modes[c.index % 4];
	const bool files = c.index / 4 % 2;
	vh::describe(std::string("many lives of a ") + modeName(mode) + " engine seed=" + std::to_string(seed) + (files ? " with files" : ""));
	const int base = entries("/proc/self/task");
	const std::vector<long> points = c.thorough ? std::vector<long>{ 8, 20, 50, 125, 312, 781, 1952, 4880, 12200 } : std::vector<long>{ 8, 20, 50, 125, 312, 781 };
	std::vector<size_t> low;
	std::vector<int> fds;
	low.reserve(points.size());
	fds.reserve(points.size());
	long n = 0;
	for (const long p : points)
	{
		low.push_back(SIZE_MAX);
		fds.push_back(1 << 30);
		while (n < p + 6)
		{
			{
				Life l;
				l.lead(mode, vh::Rng(seed + (uint64_t)(n % 6)), n, c.tmp, files);
				VH_CHECK(vh::await([&] { return l.live == 0; }), "leak", "20 s after the engine was destroyed: " << l.live << " copies of its functions were never destroyed");
			}
			VH_CHECK(vh::await([&] { return entries("/proc/self/task") <= base; }), "thread-leak", entries("/proc/self/task") << " threads, " << base << " before");
			++n;
			vh::tick();
			if (n <= p) continue;
			low.back() = std::min(low.back(), __sanitizer_get_current_allocated_bytes());
			fds.back() = std::min(fds.back(), entries("/proc/self/fd"));
		}
	}
	std::ostringstream seen;
	bool grows = low.back() - low.front() >= 6 * (size_t)n && low.back() > low.front(), fdGrows = true;
	for (size_t k = 0; k < points.size(); ++k)
	{
		seen << (k ? ", " : "") << low[k] << " after " << points[k];
		if (k) grows &= low[k] > low[k - 1];
		if (k) fdGrows &= fds[k] > fds[k - 1];
	}
	VH_CHECK(!grows, "leak", "the memory held after lives of engines grows with their number: " << seen.str());
	VH_CHECK(!fdGrows, "descriptor-leak", "the descriptors held after lives of engines grow with their number: " << fds.front() << " .. " << fds.back());
	vh::count("lives_with_new_names", (uint64_t)n);
	vh::distinct(vh::hcomb(seed, vh::mix(c.index)));
	vh::sample(seen.str());
}
