// C23: the job queue component.
#include "vh.h"
#include "PTN_Engine/JobQueue/JobQueue.h"
#include <algorithm>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <unistd.h>

const char *vh_property = "C23";
using ptne::JobQueue;
using vh::Rng;

namespace
{
struct Queue; // one experiment

//! Travels with a job; live copies are counted.
struct Payload
{
	explicit Payload(std::atomic<long> &l)
	: live(&l)
	, text("payload of a job, long enough to be on the heap")
	{
		++*live;
	}
	Payload(const Payload &o)
	: live(o.live)
	, text(o.text)
	{
		++*live;
	}
	~Payload() { --*live; }
	std::atomic<long> *live;
	std::string text;
};

struct Record
{
	std::atomic<uint64_t> called{ 0 }, returned{ 0 }; //!< stamps of addJob, by the thread that added it
	int producer = 0, seq = 0;
	long ran = 0;                      //!< plain on purpose: written by the queue's worker only
	int written = 0;                   //!< plain on purpose: written before addJob, read by the job
};

struct Experiment
{
	std::unique_ptr<JobQueue> q;
	std::atomic<uint64_t> clock{ 0 };
	std::atomic<long> live{ 0 };
	std::atomic<long> begun{ 0 }, ended{ 0 };
	std::atomic<bool> paused{ false };  //!< deactivated: between deactivate's return and activate's call
	std::atomic<int> running{ 0 };
	std::vector<Record *> order;        //!< plain on purpose: jobs are run one at a time
	std::deque<Record> records;         //!< per experiment, with the mutex below
	std::mutex recordsMutex;
	std::atomic<bool> hold{ false };
	std::atomic<bool> gone{ false };
	std::atomic<uint64_t> pausedAdds{ 0 };
	vh::Gate gate;
	int slowUs = 0;
	int spawn = 0;                      //!< 1/spawn of the jobs add a job
	int busy = 0;                       //!< 1/busy of the jobs call isActive or activate
	std::string log;

	Record *record(int producer, int seq)
	{
		std::lock_guard l(recordsMutex);
		records.emplace_back();
		records.back().producer = producer;
		records.back().seq = seq;
		return &records.back();
	}

	void add(int producer, int seq, Rng &r)
	{
		Record *rec = record(producer, seq);
		rec->written = seq * 3 + 1;
		std::atomic<int> seed{ 0 };
		const uint64_t s = r.next();
		Payload p(live);
		rec->called.store(++clock, std::memory_order_relaxed);
		q->addJob([this, rec, p, s] { job(rec, p, s); });
		rec->returned.store(++clock, std::memory_order_relaxed);
		if (paused) ++pausedAdds;
	}

	void job(Record *rec, const Payload &p, uint64_t s)
	{
		VH_CHECK(++running == 1, "not-one-at-a-time", "two jobs are running at once: " << log);
		VH_CHECK(!paused, "started-while-inactive", "job " << rec->producer << "/" << rec->seq << " was started between deactivate and activate: " << log);
		VH_CHECK(!gone, "started-after-destruction", "job " << rec->producer << "/" << rec->seq << " was started after the queue was destroyed: " << log);
		++begun;
		vh::tick();
		VH_CHECK(p.text.size() == 47 && rec->written == rec->seq * 3 + 1, "wrong-job", "the job's data are not those it was added with");
		VH_CHECK(++rec->ran == 1, "run-twice", "job " << rec->producer << "/" << rec->seq << " was run " << rec->ran << " times: " << log);
		order.push_back(rec);
		if (hold) gate.waitFor(1);
		if (slowUs > 0) usleep((useconds_t)(s % slowUs));
		Rng r(s);
		if (spawn > 0 && r.chance(1, spawn) && rec->producer != 100)
		{
			add(100, (int)(s >> 40 & 0xffff), r);
			vh::count("jobs_added_by_jobs");
		}
		if (busy > 0 && r.chance(1, busy))
		{
			(void)q->isActive();
		}
		VH_CHECK(!gone, "running-after-destruction", "the queue's destructor returned while a job was running");
		++ended;
		--running;
	}

	size_t added()
	{
		std::lock_guard l(recordsMutex);
		return records.size();
	}

	void drained()
	{
		VH_CHECK(vh::await([&] { return ended == (long)added(); }), "job-lost", "20 s after the queue was activated " << ended << " of " << added() << " jobs have run: " << log);
		VH_CHECK(vh::await([&] { return live == 0; }), "leak", "all jobs have run, but " << live << " copies of their functions are kept: " << log);
	}

	//! Only when no job is running.
	void checkOrder(bool allRun)
	{
		std::lock_guard l(recordsMutex);
		uint64_t maxCalled = 0;
		const Record *latest = nullptr;
		std::map<int, int> last;
		for (Record *rec : order)
		{
			// (a job can add its successor before its own addJob call has returned: only completed calls order)
			if (rec->returned != 0 && latest)
				VH_CHECK(!(rec->returned < maxCalled), "order", "job " << rec->producer << "/" << rec->seq << " was added before job " << latest->producer << "/" << latest->seq << " but run after it: " << log);
			if (rec->called > maxCalled)
			{
				maxCalled = rec->called;
				latest = rec;
			}
			if (rec->producer != 100)
			{
				auto it = last.find(rec->producer);
				VH_CHECK(it == last.end() || it->second < rec->seq, "order", "jobs of one thread run out of order: " << it->second << " before " << rec->seq << ": " << log);
				last[rec->producer] = rec->seq;
			}
		}
		// what has not been run was not added before something that has
		for (auto &rec : records)
			if (rec.ran == 0 && rec.returned != 0)
				VH_CHECK(!(rec.returned < maxCalled) && !allRun, "job-lost", "job " << rec.producer << "/" << rec.seq << " was skipped: " << log);
	}
};

char stateOf(int tid)
{
	std::ifstream f("/proc/self/task/" + std::to_string(tid) + "/stat");
	std::string s((std::istreambuf_iterator<char>(f)), {});
	const size_t p = s.rfind(')');
	return p == std::string::npos || p + 2 >= s.size() ? '?' : s[p + 2];
}

//! Jobs added at the moment the worker runs dry, each awaited.
void pings(Rng &rng, bool thorough)
{
	Experiment x;
	x.q = std::make_unique<JobQueue>();
	x.q->activate();
	const int rounds = thorough ? 1500 : 250;
	const uint64_t spread = 1ull << rng.range(4, 14); // ns
	x.log = "pings spread=" + std::to_string(spread) + "ns";
	vh::describe(x.log);
	auto spin = [](uint64_t ns) {
		const int64_t end = vh::nowNs() + (int64_t)ns;
		while (vh::nowNs() < end) {}
	};
	int seq = 0;
	for (int i = 0; i < rounds; ++i)
	{
		const int n = (int)rng.range(2, 3);
		for (int k = 0; k < n; ++k)
		{
			x.add(1, seq++, rng);
			// until the worker has just run it
			for (int64_t end = vh::nowNs() + 20000000; x.ended < seq && vh::nowNs() < end;) {}
			spin(rng.below(spread));
		}
		VH_CHECK(vh::await([&] { return x.ended >= seq; }), "job-lost", "a job added to the active queue when it had just run dry was not run for 20 s (" << x.ended << " of " << seq << " have): " << x.log);
	}
	x.drained();
	x.q->deactivate();
	x.checkOrder(true);
	vh::count("jobs_added_as_the_worker_ran_dry", seq);
	vh::distinct(vh::hcomb(spread, rng.next()));
}

//! Deactivation while a job is held: it waits for that job, and starts none of the others.
void heldDeactivation(Rng &rng)
{
	Experiment x;
	x.q = std::make_unique<JobQueue>();
	x.q->activate();
	x.hold = true;
	const int n = rng.chance(1, 50) ? 1 << rng.range(7, 13) : (int)rng.range(2, 20);
	for (int i = 0; i < n; ++i) x.add(1, i, rng);
	x.log = "deactivated with a job held, " + std::to_string(n) + " jobs";
	vh::describe(x.log);
	VH_CHECK(vh::await([&] { return x.begun == 1; }), "job-lost", "no job was started: " << x.log);
	std::atomic<int> tid{ 0 };
	std::atomic<bool> back{ false };
	std::thread t([&] {
		tid = vh::currentTid();
		x.q->deactivate();
		back = true;
	});
	// until the call waits for the job
	const bool asleep = vh::await([&] {
		if (tid == 0 || x.q->isActive()) return false;
		for (int i = 0; i < 6; ++i, usleep(200))
			if (stateOf(tid) != 'S') return false;
		return true;
	});
	const bool early = back;
	VH_CHECK(!early, "running-while-inactive", "deactivate returned while a job was running: " << x.log);
	x.hold = false;
	x.gate.add();
	t.join();
	x.paused = true;
	VH_CHECK(x.ended == 1 || !asleep, "started-while-inactive", "deactivate was waiting for the job being run, and the queue still started " << x.begun - 1 << " of the " << n - 1 << " waiting: " << x.log);
	VH_CHECK(x.running == 0, "running-while-inactive", "deactivate returned while a job was running: " << x.log);
	if (rng.chance(1, 2))
	{
		x.paused = false;
		x.q->activate();
		x.drained();
		x.q->deactivate();
		x.checkOrder(true);
	}
	else
		x.checkOrder(false);
	x.q.reset();
	x.gone = true;
	VH_CHECK(x.live == 0, "leak", x.live << " copies of jobs are kept: " << x.log);
	if (asleep) vh::count("deactivations_with_a_job_held");
	vh::distinct(vh::hcomb(n, rng.next()));
}
} // namespace

void vh_case(vh::Case &c, Rng &rng)
{
	noise::configure(rng.next(), rng.chance(2, 3) ? (int)rng.below(5) : 0, c.thorough ? 60000 : 20000);
	if (c.index / 8 % 6 == 0) return pings(rng, c.thorough);
	if (c.index / 8 % 6 == 1)
	{
		noise::off(); // it would put the caller to sleep before it waits
		return heldDeactivation(rng);
	}
	Experiment x;
	x.slowUs = rng.chance(1, 2) ? 0 : (int)rng.range(1, rng.chance(1, 4) ? 1500 : 80);
	const int end = (int)rng.below(4);
	// jobs do not call a queue that is being destroyed
	x.spawn = end != 0 && rng.chance(1, 3) ? (int)rng.range(2, 6) : 0;
	x.busy = end != 0 && rng.chance(1, 3) ? 3 : 0;
	const int producers = (int)rng.below(5);
	const int each = (int)rng.range(1, rng.chance(1, 6) ? 300 : 40);
	const int steps = (int)rng.range(1, rng.chance(1, 4) ? 60 : 14);
	x.q = std::make_unique<JobQueue>();
	x.log = "producers=" + std::to_string(producers) + "x" + std::to_string(each) + " slow=" + std::to_string(x.slowUs);
	vh::describe(x.log);
	bool active = x.q->isActive();
	std::vector<std::thread> th;
	std::atomic<int> left{ producers };
	for (int p = 0; p < producers; ++p)
		th.emplace_back([&, p, r = Rng(rng.next())]() mutable {
			for (int i = 0; i < each; ++i)
			{
				x.add(p, i, r);
				if (r.chance(1, 5)) usleep((useconds_t)r.below(100));
			}
			--left;
		});
	int own = 0;
	uint64_t h = 1;
	long toggles = 0;
	for (int i = 0; i < steps; ++i)
	{
		vh::tick();
		const int what = (int)rng.below(8);
		if (x.log.size() > 500) x.log.erase(0, 250);
		switch (what)
		{
		case 0:
		case 1:
		{
			const int n = (int)rng.range(1, rng.chance(1, 5) ? 30 : 4);
			x.log += " add" + std::to_string(n);
			for (int k = 0; k < n; ++k) x.add(50, own++, rng);
			break;
		}
		case 2:
		case 3:
		{
			x.log += " deactivate";
			const bool wasRunning = x.running > 0;
			x.q->deactivate();
			x.paused = true;
			VH_CHECK(x.running == 0, "running-while-inactive", "deactivate returned while a job was running: " << x.log);
			VH_CHECK(!x.q->isActive(), "wrong-state", "isActive() after deactivate: " << x.log);
			const long at = x.begun;
			// idle: some jobs are added meanwhile
			if (rng.chance(1, 2))
			{
				const int n = (int)rng.below(4);
				for (int k = 0; k < n; ++k) x.add(50, own++, rng);
			}
			if (rng.chance(1, 3)) usleep((useconds_t)rng.below(400));
			if (rng.chance(1, 4)) x.q->deactivate();
			VH_CHECK(x.begun == at, "started-while-inactive", "jobs were started while the queue was inactive: " << x.log);
			if (wasRunning) vh::count("deactivated_while_running");
			x.checkOrder(false);
			active = false;
			++toggles;
			h = vh::hcomb(h, at);
			break;
		}
		case 4:
		case 5:
			x.log += " activate";
			x.paused = false;
			x.q->activate();
			VH_CHECK(x.q->isActive(), "wrong-state", "not isActive() after activate: " << x.log);
			active = true;
			break;
		case 6:
			usleep((useconds_t)rng.below(300));
			break;
		case 7:
			if (active && rng.chance(1, 2) && left == 0)
			{
				// idle queue, its worker gone or going
				x.log += " drain";
				x.drained();
				vh::count("drained_between");
			}
			break;
		}
	}
	h = vh::hcomb(h, end);
	if (end == 0)
	{
		// destruction with jobs waiting, perhaps one running
		for (auto &t : th) t.join();
		// an own gate: the job being run is waited for
		const bool held = rng.chance(1, 2) && active;
		std::thread rel;
		if (held)
		{
			x.hold = true;
			for (int k = 0; k < 3; ++k) x.add(50, own++, rng);
			rel = std::thread([&, us = rng.below(2000)] {
				usleep((useconds_t)us);
				x.hold = false;
				x.gate.add();
			});
		}
		x.log += " destroy";
		const long before = x.ended;
		x.q.reset();
		x.gone = true;
		VH_CHECK(x.running == 0 && x.begun == x.ended, "running-after-destruction", "the queue's destructor returned while a job was running: " << x.log);
		const long at = x.begun;
		if (rng.chance(1, 4)) usleep(200);
		VH_CHECK(x.begun == at, "started-after-destruction", "jobs were started after the queue was destroyed: " << x.log);
		if (rel.joinable()) rel.join();
		x.checkOrder(false);
		VH_CHECK(x.live == 0, "leak", "the queue is gone, but " << x.live << " copies of its jobs are kept: " << x.log);
		if ((long)x.added() > x.ended) vh::count("destroyed_with_jobs_waiting");
		if (x.ended > before) vh::count("destroyed_while_running");
	}
	else
	{
		x.log += " activate at the end";
		if (end == 1)
			for (auto &t : th) t.join();
		x.paused = false;
		x.q->activate();
		if (end != 1)
			for (auto &t : th) t.join();
		x.drained();
		x.q->deactivate();
		x.checkOrder(true);
		if (rng.chance(1, 2))
		{
			// a queue that has come to rest can be used again
			x.q->activate();
			const int n = (int)rng.range(1, 5);
			for (int k = 0; k < n; ++k) x.add(50, own++, rng);
			x.drained();
			vh::count("reused_after_rest");
		}
		x.q.reset();
		x.gone = true;
		x.checkOrder(true);
		vh::count("runs_to_the_end");
	}
	VH_CHECK(x.live == 0, "leak", x.live << " copies of jobs are kept: " << x.log);
	vh::count("jobs_run", x.ended);
	vh::count("toggles", toggles);
	vh::count("jobs_added_while_inactive", x.pausedAdds);
	h = vh::hcomb(h, x.order.size());
	for (auto *r : x.order) h = vh::hcomb(h, r->producer * 100000 + r->seq);
	if (x.order.size() > 1) vh::distinct(h);
	if (x.order.size() > 5 && toggles > 1) vh::sample(x.log + ": " + std::to_string(x.ended) + " jobs run in order");
}
