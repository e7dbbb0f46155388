// C10 - concurrent observations are linearizable.
#include "game.h"
using namespace game;
const char *vh_property = "C10";
using namespace std::chrono_literals;

namespace
{
struct Counter
{
	std::string name;
	size_t init = 0;
	std::atomic<long> started{ 0 }, completed{ 0 };
	std::atomic<long> seen{ 0 }; //!< highest count any finished read has returned, above init
};

void raise(std::atomic<long> &a, long v)
{
	long o = a;
	while (v > o && !a.compare_exchange_weak(o, v))
		;
}
} // namespace

void vh_case(vh::Case &c, vh::Rng &r)
{
	static const Mode modes[] = { Mode::SINGLE_THREAD, Mode::EVENT_LOOP, Mode::JOB_QUEUE, Mode::DETACHED };
	const Mode mode = modes[r.below(4)];
	const bool threaded = mode != Mode::SINGLE_THREAD;
	const int groups = (int)r.range(1, 3), per = (int)r.range(1, 4), shared = (int)r.range(1, 3);
	const int readers = (int)r.range(1, 4), rounds = (int)r.range(5, c.thorough ? 120 : 50);
	const int style = r.chance(1, 3) ? (int)r.below(7) : 0;
	const bool creating = r.chance(1, 2), actions = r.chance(1, 2), ring = r.chance(1, 2), running = threaded && r.chance(3, 4);
	const bool pingpong = r.chance(1, 2);
	static const size_t inits[] = { 0, 0, 0, 3, 255, 65535, 0xffffffffull, 0x7fffffffffffff00ull, 0xfffffffffffff000ull };
	std::ostringstream d;
	d << modeName(mode) << (running ? " running" : "") << " groups=" << groups << "x" << per << " shared=" << shared << " readers=" << readers << " rounds=" << rounds
	  << (creating ? " creating" : "") << (actions ? " actions" : "") << (ring ? " ring" : "") << (pingpong ? " pingpong" : "") << " style=" << style;
	vh::describe(d.str());
	std::deque<Counter> C;
	std::map<std::string, int> byName;
	const int nC = groups * per + shared;
	vh::Gate actionRuns;
	std::vector<bool> hasAction;
	PTN_Engine e(mode);
	e.setEventLoopSleepDuration(1ms);
	// a crowd of other places, created before, between and after
	const int fillers = r.chance(1, 8) ? (int)r.range(10, r.chance(3, 4) ? 100 : 300) : 0;
	int filled = 0;
	auto fill = [&](int upTo)
	{
		for (; filled < upTo; ++filled) e.createPlace({ .name = "fill" + std::to_string(filled), .initialNumberOfTokens = 9 });
	};
	if (fillers) d << " among " << fillers << " others", vh::describe(d.str());
	for (int i = 0; i < nC; ++i)
	{
		fill(fillers * i / nC);
		Counter &k = C.emplace_back();
		k.name = makeName(r, "P", i, style);
		k.init = inits[r.below(std::size(inits))];
		byName[k.name] = i;
		ptne::PlaceProperties p{ .name = k.name, .initialNumberOfTokens = k.init, .input = true };
		hasAction.push_back(actions && r.chance(1, 2));
		if (hasAction.back())
			p.onEnterAction = [&, us = (unsigned)r.below(60)]
			{
				if (us > 30) std::this_thread::sleep_for(std::chrono::microseconds(us));
				actionRuns.add();
			};
		e.createPlace(p);
	}
	fill(fillers);
	// a ring in which the running loop moves tokens about; their number is bounded
	const size_t K = 1 + r.below(3);
	const int nR = 3;
	if (ring)
	{
		for (int i = 0; i < nR; ++i) e.createPlace({ .name = "ring" + std::to_string(i), .initialNumberOfTokens = i == 0 ? K : 0 });
		for (int i = 0; i < nR; ++i)
			e.createTransition({ .name = "move" + std::to_string(i),
								 .activationArcs = { { .placeName = "ring" + std::to_string(i) } },
								 .destinationArcs = { { .placeName = "ring" + std::to_string((i + 1) % nR) } } });
	}
	// tokens handed on by the running loop: counted by actions as they leave and as they arrive
	const bool chain = r.chance(1, 2);
	std::atomic<long> fed{ 0 }, feeding{ 0 }, left{ 0 }, entered{ 0 };
	if (chain)
	{
		e.createPlace({ .name = "source", .onExitAction = [&] { ++left; }, .input = true });
		e.createPlace({ .name = "sink", .onEnterAction = [&] { ++entered; } });
		e.createTransition({ .name = "hand on", .activationArcs = { { .placeName = "source" } }, .destinationArcs = { { .placeName = "sink" } } });
		d << " chain";
		vh::describe(d.str());
	}
	std::atomic<int> created{ 0 }, creatingNow{ 0 };
	const bool run = running || (threaded && (ring || chain));
	noise::configure(r.next(), (int)r.below(6), 20000);
	if (run) e.execute();

	std::atomic<bool> done{ false };
	std::atomic<uint64_t> reads{ 0 }, snapshots{ 0 }, overlapping{ 0 }, chainReads{ 0 };
	std::atomic<uint64_t> hist{ 0 };
	vh::Gate ready;

	auto inc = [&](Counter &k)
	{
		++k.started;
		e.incrementInputPlace(k.name);
		++k.completed;
		vh::tick();
	};
	std::vector<std::thread> ts;
	std::vector<long> expect(nC, 0);
	// a group's places are incremented cyclically, by one thread or by threads handing over
	for (int g = 0; g < groups; ++g)
	{
		for (int i = 0; i < per; ++i) expect[g * per + i] = rounds;
		if (pingpong && per > 1)
		{
			auto turn = std::make_shared<std::atomic<long>>(0);
			for (int i = 0; i < per; ++i)
				ts.emplace_back(
				[&, g, i, turn]
				{
					ready.waitFor(1);
					for (int k = 0; k < rounds; ++k)
					{
						while (*turn != (long)k * per + i) std::this_thread::yield();
						inc(C[g * per + i]);
						++*turn;
					}
				});
		}
		else
			ts.emplace_back(
			[&, g]
			{
				ready.waitFor(1);
				for (int k = 0; k < rounds; ++k)
					for (int i = 0; i < per; ++i) inc(C[g * per + i]);
			});
	}
	// shared places: several threads each
	const int sharers = (int)r.range(1, 3);
	for (int i = 0; i < shared; ++i) expect[groups * per + i] = 0;
	std::vector<std::vector<int>> plan(sharers);
	for (auto &pl : plan)
		for (int k = 0; k < rounds; ++k)
		{
			pl.push_back(groups * per + (int)r.below(shared));
			++expect[pl.back()];
		}
	for (int s = 0; s < sharers; ++s)
		ts.emplace_back(
		[&, s]
		{
			ready.waitFor(1);
			for (int p : plan[s]) inc(C[p]);
		});
	if (chain)
		ts.emplace_back(
		[&, n = rounds * 4]
		{
			ready.waitFor(1);
			for (int k = 0; k < n; ++k)
			{
				++feeding;
				e.incrementInputPlace("source");
				++fed;
				vh::tick();
				if (k % 8 == 7) std::this_thread::sleep_for(10us);
			}
		});
	if (creating)
		ts.emplace_back(
		[&, n = (int)r.range(1, 12)]
		{
			ready.waitFor(1);
			for (int k = 0; k < n; ++k)
			{
				creatingNow = k + 1;
				e.createPlace({ .name = "new" + std::to_string(k), .initialNumberOfTokens = 7 });
				created = k + 1;
				std::this_thread::sleep_for(20us);
			}
		});
	std::vector<std::thread> rs;
	for (int q = 0; q < readers; ++q)
		rs.emplace_back(
		[&, rng = vh::Rng(r.next()), pause = (unsigned)(20 + r.below(200))]() mutable
		{
			std::vector<long> last(nC, 0);
			long lastSink = 0;
			// a token is in its place before its on-enter action begins, and has left it before its on-exit action does
			auto readChain = [&]
			{
				const bool sink = rng.chance(3, 4);
				const long arrived = entered, gone = left;
				const long v = (long)e.getNumberOfTokens(sink ? "sink" : "source");
				const long most = feeding;
				++reads;
				++chainReads;
				VH_CHECK(v >= 0 && v <= most - (sink ? 0 : gone), "impossible",
						 (sink ? "sink" : "source") << " was read with " << v << " tokens of " << most << (sink ? "" : ", of which some had left: ") << gone << " " << d.str());
				if (!sink) return;
				VH_CHECK(v >= arrived, "not-linearizable", "a place was read with " << v << " tokens although the on-enter actions of " << arrived << " had begun before " << d.str());
				VH_CHECK(v >= lastSink, "decreasing", "a read of a place that only gains tokens decreased from " << lastSink << " to " << v << " " << d.str());
				lastSink = v;
			};
			ready.waitFor(1);
			bool more = true;
			uint64_t h = 0;
			while (more)
			{
				more = !done;
				if (pause) std::this_thread::sleep_for(std::chrono::microseconds(rng.below(pause)));
				const int kind = (int)rng.below(4);
				if (chain)
					for (int k = (int)rng.below(6); k > 0; --k) readChain();
				if (kind < 2)
				{
					Counter &k = C[rng.below(nC)];
					const long lo = std::max<long>(k.completed, k.seen);
					const size_t raw = e.getNumberOfTokens(k.name);
					const long hi = k.started, v = (long)(raw - k.init);
					const int idx = byName[k.name];
					VH_CHECK(v >= lo && v <= hi, "not-linearizable",
							 "getNumberOfTokens(" << k.name << ") returned initial+" << v << " although +" << lo << " were complete or seen before it and only +" << hi
												  << " had been started after it, " << d.str());
					VH_CHECK(v >= last[idx], "decreasing", "a read of " << k.name << " decreased from +" << last[idx] << " to +" << v << " " << d.str());
					last[idx] = v;
					raise(k.seen, v);
					if (lo != hi) ++overlapping;
					++reads;
					h = vh::hcomb(h, (uint64_t)v);
					if (ring && rng.chance(1, 3))
					{
						const size_t x = e.getNumberOfTokens("ring" + std::to_string(rng.below(nR)));
						VH_CHECK(x <= K, "impossible", "a place of a ring of " << K << " tokens held " << x << " " << d.str());
					}
					continue;
				}
				std::vector<long> lo(nC), v(nC, -1);
				const long arrived = entered, gone = left;
				long source = 0, sink = 0;
				for (int i = 0; i < nC; ++i) lo[i] = std::max<long>(C[i].completed, C[i].seen);
				const int mustHave = created;
				std::set<std::string> seenNames;
				int newOnes = 0, filling = 0;
				auto take = [&](const std::string &name, size_t raw, const char *what)
				{
					VH_CHECK(seenNames.insert(name).second, "listed-twice", what << " lists '" << name << "' twice " << d.str());
					auto it = byName.find(name);
					if (it != byName.end())
						v[it->second] = (long)(raw - C[it->second].init);
					else if (chain && name == "source")
						source = (long)raw;
					else if (chain && name == "sink")
						sink = (long)raw;
					else if (fillers && name.starts_with("fill") && raw == 9)
						++filling;
					else if (name.starts_with("ring"))
						VH_CHECK(raw <= K, "impossible", what << ": a place of a ring of " << K << " tokens held " << raw << " " << d.str());
					else
					{
						VH_CHECK(name.starts_with("new") && raw == 7, "impossible", what << " shows '" << name << "' with " << raw << " tokens " << d.str());
						++newOnes;
					}
				};
				const char *what;
				if (kind == 2)
				{
					what = "getPlacesProperties";
					for (auto &p : e.getPlacesProperties()) take(p.name, p.initialNumberOfTokens, what);
				}
				else
				{
					what = "printState";
					std::ostringstream os;
					e.printState(os);
					std::istringstream is(os.str());
					std::string line;
					std::getline(is, line);
					VH_CHECK(line == "Place; Tokens", "format", "printState begins with " << line);
					while (std::getline(is, line) && !line.empty())
					{
						const size_t at = line.rfind(": ");
						VH_CHECK(at != std::string::npos, "format", "printState line '" << line << "' " << d.str());
						take(line.substr(0, at), std::stoull(line.substr(at + 2)), what);
					}
				}
				const int mayHave = creatingNow;
				const long most = feeding;
				VH_CHECK(sink >= arrived && sink >= lastSink && sink <= most && source >= 0 && source <= most - gone, "not-linearizable",
						 what << " shows " << source << " tokens waiting and " << sink << " handed on of " << most << " at most, although " << arrived << " on-enter and " << gone
							  << " on-exit actions had begun and " << lastSink << " had been seen before " << d.str());
				lastSink = sink;
				VH_CHECK(filling == fillers, "missing", what << " lists " << filling << " of " << fillers << " other places " << d.str());
				VH_CHECK(newOnes >= mustHave && newOnes <= mayHave, "created-place", what << " lists " << newOnes << " of the places created meanwhile, " << mustHave
																							<< " were complete, " << mayHave << " begun " << d.str());
				for (int i = 0; i < nC; ++i)
				{
					VH_CHECK(v[i] >= 0, "missing", what << " does not list " << C[i].name << " or shows less than its initial tokens " << d.str());
					const long hi = C[i].started;
					VH_CHECK(v[i] >= lo[i] && v[i] <= hi, "not-linearizable", what << " shows " << C[i].name << " with initial+" << v[i] << ", possible were +" << lo[i] << " to +" << hi << " " << d.str());
					VH_CHECK(v[i] >= last[i], "decreasing", what << ": " << C[i].name << " decreased from +" << last[i] << " to +" << v[i] << " " << d.str());
					last[i] = v[i];
					raise(C[i].seen, v[i]);
					if (lo[i] != hi) ++overlapping;
					h = vh::hcomb(h, (uint64_t)v[i]);
				}
				for (int g = 0; g < groups; ++g)
					for (int i = 0; i + 1 < per; ++i)
						VH_CHECK(v[g * per + i] >= v[g * per + i + 1] && v[g * per] <= v[g * per + per - 1] + 1, "inconsistent-cut",
								 what << " is not a consistent cut: the places of group " << g << " are incremented in turn, but it shows +" << v[g * per + i] << ", +" << v[g * per + i + 1]
									  << " (first +" << v[g * per] << ", last +" << v[g * per + per - 1] << ") " << d.str());
				++snapshots;
			}
			hist += h;
		});
	ready.add();
	if (!threaded)
		for (int k = 0; k < 3 && !ring; ++k) e.execute();
	for (auto &t : ts) t.join();
	done = true;
	for (auto &t : rs) t.join();
	noise::off();
	if (run) e.stop();
	long wantActions = 0;
	for (int i = 0; i < nC; ++i) wantActions += hasAction[i] ? expect[i] : 0;
	actionRuns.waitFor(wantActions);
	if (chain)
	{
		const long at = (long)e.getNumberOfTokens("source"), on = (long)e.getNumberOfTokens("sink");
		VH_CHECK(at + on == fed, "lost", "of " << fed << " tokens " << at << " wait and " << on << " have been handed on " << d.str());
		VH_CHECK(vh::await([&] { return entered >= on && left >= on; }, 20), "action-lost", on << " tokens were handed on but " << left << " on-exit and " << entered << " on-enter actions ran " << d.str());
		vh::count("reads_of_places_fed_by_firings", chainReads);
	}
	for (int i = 0; i < nC; ++i)
		VH_CHECK(e.getNumberOfTokens(C[i].name) == C[i].init + (size_t)expect[i], "lost", C[i].name << " ends with " << e.getNumberOfTokens(C[i].name) - C[i].init << " of " << expect[i] << " " << d.str());
	if (fillers) vh::count("snapshots_of_many_places", snapshots);
	vh::count("reads", reads);
	vh::count("snapshots", snapshots);
	vh::count("observations_overlapping_increments", overlapping);
	vh::count(std::string("cases_") + modeName(mode));
	if (overlapping) vh::distinct(vh::hcomb(hist, vh::mix(overlapping)));
	if (overlapping > 30) vh::sample(d.str());
}
