// P04: background workers, start-up/shut-down of both pools, the locks and condition variables they are made of.
#include "prelude.h"
#include "nntl/math.h"
#include "nntl/common.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "nntl/interface/threads/bgworkers.h"
#include "perturb.h"
using namespace vh;
using namespace std::chrono_literals;
namespace th = nntl::threads;
static unsigned g_hc = 4;
unsigned std::thread::hardware_concurrency() noexcept { return g_hc; }

// pools that are destroyed at an unlucky moment: right after creation, or after a job, while the workers are on their way to sleep
template<typename W> void lifecycle(R& r, const char* nm, bool bg) {
	g_hc = r.in(2, 8);
	note(std::string(nm) + " hc=" + std::to_string(g_hc));
	if (r.b()) pert::slow(r.pick({ 9, 9, 3, 4, 12, 10, 5 }), r.in(200, 4000)); else pert::arm(r.u64(), r.pick({ 10, 50 }));
	deadline dl(60, "pool.destructor_hang");
	{
		W w;
		if (r.b()) usleep(r.below(2000));
		ev("lifecycle.created"); seen(nm, int(g_hc), pert::S().slow_at.load());
	}
	ev("lifecycle.destroyed"); ev("lifecycle.perturbed", pert::taken() + pert::S().slowed.exchange(0));
	pert::disarm();
}
template<typename W> void lifecycle_job(R& r, const char* nm) {
	g_hc = r.in(2, 8);
	note(nm);
	if (r.b()) pert::slow(r.pick({ 9, 9, 3, 4, 12, 10, 7, 8 }), r.in(200, 2000)); else pert::arm(r.u64(), 30);
	deadline dl(60, "pool.destructor_hang");
	{
		W w; const int n = r.in(1, 4);
		for (int i = 0; i < n; ++i) {
			std::vector<int> h(g_hc * 3, 0);
			w.run([&](const auto& g) { for (long k = g.offset(); k < long(g.end()); ++k) h[k]++; }, long(h.size()));
			for (auto v : h) VCHECK(v == 1, "pool.once_under_delay", "%d", v);
		}
	}
	ev("lifecycle.destroyed"); ev("lifecycle.perturbed", pert::taken() + pert::S().slowed.exchange(0));
	pert::disarm();
}

struct call { int task; int thr; bool ret; };

template<typename SyncT> void bg_history(R& r, const char* nm) {
	typedef th::BgWorkers<SyncT> BG;
	if (r.chance(40)) pert::slow(8, r.in(100, 1500)); else pert::arm(r.u64(), r.pick({ 0, 5, 30 }));
	deadline dl(90, "bg.hang");
	const int nt = r.in(1, 5);
	note(nm);
	struct log_t { std::mutex m; std::vector<call> c; } log;
	std::atomic<bool> deleted{ true };
	std::atomic<int> in_exec{ 0 };
	std::vector<std::atomic<int>> in_thread(nt);//re-entrance detector per worker
	for (auto& a : in_thread) a = 0;
	struct task_t {
		int id, prio, rep; std::atomic<int> left; log_t* log; std::atomic<bool>* deleted; std::vector<std::atomic<int>>* inth; int nt;
		std::vector<int>* per_thread_plain;
		bool operator()(const nntl::thread_id_t t) {
			if (int(t) < 0 || int(t) >= nt) { viol("bg.tid", "tid %d of %d", int(t), nt); return false; }
			if ((*inth)[t]++ != 0) viol("bg.reentered", "worker %d runs two things at once", int(t));
			if (*deleted) viol("bg.task_after_delete", "task %d called after delete_tasks() returned / before it was added", id);
			(*per_thread_plain)[t]++;
			pert::hit(30); if ((id & 1)) usleep(50);
			if (*deleted) viol("bg.delete_while_running", "delete_tasks() returned while task %d was running", id);
			const bool ret = --left > 0;
			{ std::lock_guard<std::mutex> g(log->m); if (log->c.size() < 20000) log->c.push_back(call{ id, int(t), ret }); }
			(*inth)[t]--;
			return ret;
		}
	};
	{
		BG bg(nt, r.b() ? th::PriorityClass::threads_priority_no_change : th::PriorityClass::threads_priority_below_current);
		VCHECK(int(bg.workers_count()) == nt, "bg.workers_count", "%d vs %d", int(bg.workers_count()), nt);
		nntl::thread_id_t tc = 0; bg.get_worker_threads(tc); VCHECK(int(tc) == nt, "bg.thread_count", "%d", int(tc));
		if (r.b()) bg.set_task_wait_timeout(std::chrono::milliseconds(r.in(1, 5)));
		if (r.b()) bg.expect_tasks_count(r.in(1, 8));
		const int rounds = r.in(1, 3);
		for (int q = 0; q < rounds; ++q) {
			const int ntask = r.in(0, 4);
			std::vector<std::unique_ptr<task_t>> ts;
			std::vector<int> plain(nt, 0);
			std::vector<int> prios; for (int i = 0; i < ntask; ++i) prios.push_back(i * 3 - 4); r.shuffle(prios);
			for (int i = 0; i < ntask; ++i) {
				ts.emplace_back(new task_t{}); auto& t = *ts.back();
				t.id = q * 10 + i; t.prio = prios[i]; t.left = r.in(1, 6); t.log = &log; t.deleted = &deleted; t.inth = &in_thread; t.nt = nt; t.per_thread_plain = &plain;
			}
			{ std::lock_guard<std::mutex> g(log.m); log.c.clear(); }
			deleted = false;
			for (auto& t : ts) { bg.add_task(*t, t->prio); if (r.chance(20)) usleep(r.below(1500)); }
			VCHECK(bg.tasks_count() == size_t(ntask), "bg.tasks_count", "%zu vs %d", bg.tasks_count(), ntask);
			size_t from; { std::lock_guard<std::mutex> g(log.m); from = log.c.size(); }//from here on the set of tasks is fixed
			const int nexec = r.in(0, 3);
			for (int e = 0; e < nexec; ++e) {
				if (r.b()) usleep(r.below(4000));
				std::vector<int> called(nt, 0); int alien = 0;
				bg.exec([&](const nntl::thread_id_t t) {
					if (int(t) < 0 || int(t) >= nt) { alien++; return; }
					if (in_thread[t]++ != 0) viol("bg.exec_reentered", "worker %d", int(t));
					pert::hit(31); called[t]++;
					in_thread[t]--;
				});
				VCHECK(!alien, "bg.exec_tid", "%d calls with a bad id", alien);
				for (int i = 0; i < nt; ++i) VCHECK(called[i] == 1, "bg.exec_once", "%s: exec() called worker %d %d times before it returned", nm, i, called[i]);
				ev("bg.exec"); ev("bg.exec_calls", nt);
			}
			if (ntask && r.chance(70)) {//tasks must be served repeatedly without any further call
				bool ok = false;
				for (int k = 0; k < 15000 && !ok; ++k) {
					usleep(2000); std::set<int> done; { std::lock_guard<std::mutex> g(log.m); for (auto& c : log.c) done.insert(c.task); }
					ok = int(done.size()) == ntask;
				}
				VCHECK(ok, "bg.task_starved", "%s: a task was never called in 30 s", nm); ev("bg.served");
			}
			if (r.chance(30)) bg.set_task_wait_timeout(std::chrono::microseconds(r.in(1000, 4000)));
			bg.delete_tasks();
			deleted = true;
			VCHECK(bg.tasks_count() == 0, "bg.deleted_count", "%zu", bg.tasks_count());
			if (r.b()) usleep(r.below(3000));
			std::vector<call> c; { std::lock_guard<std::mutex> g(log.m); c = log.c; }
			int tot = 0; for (auto v : plain) tot += v;//plain memory: visible because delete_tasks() synchronises
			VCHECK(size_t(tot) == c.size(), "bg.calls_lost", "%d vs %zu", tot, c.size());
			// trace specification, per thread: a pass starts with the most urgent task; a task is called again while it returns true; then the next less urgent one
			if (ntask) {
				std::vector<int> order(ntask); for (int i = 0; i < ntask; ++i) order[i] = i;
				std::sort(order.begin(), order.end(), [&](int a, int b) { return prios[a] > prios[b]; });
				std::vector<int> pos(ntask); for (int i = 0; i < ntask; ++i) pos[order[i]] = i;
				for (int t = 0; t < nt; ++t) {
					int prev = -1; bool pret = false; bool first = true;
					for (size_t k = from; k < c.size(); ++k) if (c[k].thr == t) {
						const int p = pos[c[k].task % 10];
						if (!first) {
							const bool again = p == prev && pret, next = p == prev + 1, restart = p == 0;
							VCHECK(again || next || restart, "bg.priority_order", "%s: worker %d went from rank %d (returned %d) to rank %d of %d", nm, t, prev, pret, p, ntask);
							ev("bg.transitions");
						}
						first = false; prev = p; pret = c[k].ret;
					}
				}
			}
			ev("bg.task_calls", c.size()); seen(nm, nt, ntask, nexec, std::min<size_t>(c.size(), 20));
		}
		if (r.b()) {// destroyed with tasks still registered
			static std::atomic<int> x{ 0 }; static auto endless = [](const nntl::thread_id_t) { x++; usleep(20); return true; };
			bg.add_task(endless, 1); usleep(r.below(6000)); ev("bg.destroyed_busy");
		}
	}
	for (auto& a : in_thread) VCHECK(a == 0, "bg.still_running", "a task outlives the pool");
	ev("bg.destroyed"); ev("bg.perturbed", pert::taken()); pert::disarm();
}

// mutual exclusion and visibility through the lock classes; plain counter on purpose
template<typename L, typename G> void mutex_case(R& r, const char* nm) {
	L l; long cnt = 0; int inside = 0; const int nt = r.in(2, 6), n = r.in(50, 400);
	std::vector<std::thread> t;
	for (int i = 0; i < nt; ++i) t.emplace_back([&] { for (int k = 0; k < n; ++k) { G g(l); if (++inside != 1) viol("lock.exclusion", "%s: %d threads inside", nm, inside); ++cnt; if (k % 16 == 0) sched_yield(); --inside; } });
	for (auto& x : t) x.join();
	VCHECK(cnt == long(nt)*n, "lock.count", "%s: %ld vs %ld", nm, cnt, long(nt)*n); ev("lock.acquired", cnt); seen(nm, nt);
}
template<typename L> struct plain_guard { L& l; plain_guard(L& x) :l(x) { l.lock(); } ~plain_guard() { l.unlock(); } };

void shared_case(R& r) {
	th::_impl::win_srwlock l; long a = 0, b = 0; std::atomic<int> readers{ 0 }, maxr{ 0 }, writers{ 0 };
	const int n = r.in(30, 150); std::vector<std::thread> t;
	pert::arm(r.u64(), 5);
	for (int i = 0; i < 2; ++i) t.emplace_back([&] { for (int k = 0; k < n; ++k) { l.lock(); if (++writers != 1 || readers != 0) viol("srw.exclusion", "writer meets %d writers, %d readers", writers.load() - 1, readers.load()); ++a; sched_yield(); ++b; --writers; l.unlock(); } });
	for (int i = 0; i < 3; ++i) t.emplace_back([&] { for (int k = 0; k < n; ++k) { l.lock_shared(); int x = ++readers; int m = maxr; while (x > m && !maxr.compare_exchange_weak(m, x)) {} if (writers != 0) viol("srw.reader", "a reader meets a writer"); if (a != b) viol("srw.torn", "%ld %ld", a, b); --readers; l.unlock_shared(); } });
	for (auto& x : t) x.join();
	pert::disarm();
	VCHECK(a == 2 * n && b == a, "srw.count", "%ld", a); ev("srw.rounds"); ev("srw.max_readers", maxr);
}
// two readers must be able to hold the lock at the same time
void shared_parallel(R&) {
	th::_impl::win_srwlock l; deadline d(30, "srw.readers_serialised"); std::atomic<int> in{ 0 };
	auto f = [&] { l.lock_shared(); ++in; while (in < 2) usleep(100); l.unlock_shared(); };
	std::thread a(f), b(f); a.join(); b.join(); ev("srw.parallel_readers");
}
template<typename CV, typename M> void cv_case(R& r, const char* nm) {
	M m; CV cv; int stage = 0; const int n = r.in(5, 40);
	pert::arm(r.u64(), 20);
	deadline d(60, "cv.hang");
	std::thread cons([&] { for (int k = 0; k < n; ++k) { std::unique_lock<M> lk(m); cv.wait(lk, [&] { return stage == 2 * k + 1; }); ++stage; cv.notify_all(); } });
	for (int k = 0; k < n; ++k) { std::unique_lock<M> lk(m); cv.wait(lk, [&] { return stage == 2 * k; }); ++stage; cv.notify_all(); }
	cons.join(); pert::disarm();
	VCHECK(stage == 2 * n, "cv.pingpong", "%s: %d vs %d", nm, stage, 2 * n); ev("cv.handovers", stage);
}
// timed waits report what happened, as their std counterparts do
template<typename Lk, typename CV, typename M> void cv_timed(R& r, const char* nm) {
	M m; CV cv; deadline d(60, "cv.timed_hang");
	{
		Lk lk(m); bool to = false; const auto t0 = std::chrono::steady_clock::now(); const int ms = r.in(2, 12);
		for (int k = 0; k < 50 && !to; ++k) to = cv.wait_for(lk, std::chrono::milliseconds(ms)) == std::cv_status::timeout;
		VCHECK(to, "cv.timeout_status", "%s: nobody notifies, but 50 waits of %d ms report no timeout", nm, ms);
		VCHECK(std::chrono::steady_clock::now() - t0 >= std::chrono::milliseconds(ms), "cv.timeout_early", "%s", nm); ev("cv.timeouts");
	}
	{
		Lk lk(m); const auto t0 = std::chrono::steady_clock::now();
		const bool b = cv.wait_for(lk, std::chrono::milliseconds(5), [] { return false; });
		VCHECK(!b, "cv.pred_timeout", "%s: false predicate, yet wait_for reports true", nm);
		VCHECK(std::chrono::steady_clock::now() - t0 >= std::chrono::milliseconds(5), "cv.pred_timeout_early", "%s", nm);
		VCHECK(cv.wait_for(lk, std::chrono::milliseconds(5), [] { return true; }), "cv.pred_true", "%s", nm); ev("cv.pred_timeouts");
	}
	{
		std::atomic<bool> go{ false }, fin{ false }; bool flag = false;
		std::thread t([&] { while (!go) sched_yield(); std::unique_lock<M> lk(m); flag = true; cv.notify_one(); });
		bool woken = false, ok;
		{ Lk lk(m); go = true; ok = cv.wait_for(lk, std::chrono::seconds(50), [&] { return flag; }); woken = flag; }
		t.join(); VCHECK(ok && woken, "cv.notified", "%s", nm); ev("cv.notified");
	}
	{//a notified wait of a very long period isn't a timeout
		std::atomic<bool> go{ false }, fin{ false };
		std::thread t([&] { while (!fin) { { std::unique_lock<M> lk(m); cv.notify_all(); } usleep(500); } });
		std::cv_status st; { Lk lk(m); st = cv.wait_for(lk, std::chrono::seconds(50)); } fin = true; t.join();
		VCHECK(st == std::cv_status::no_timeout, "cv.no_timeout_status", "%s: notified, yet reports a timeout", nm); ev("cv.notified");
	}
}
// priorities of the threads of a pool are put back
void prio_case(R& r) {
	typedef th::Workers<float, long> W; auto& ps = vshim::prio(); g_hc = r.in(2, 6);
	W w; const int orig = r.pick({ 0, -1, 2 }); const DWORD oc = r.pick<DWORD>({ NORMAL_PRIORITY_CLASS, HIGH_PRIORITY_CLASS });
	std::vector<pthread_t> ids; nntl::thread_id_t tc; auto it = w.get_worker_threads(tc); for (int i = 0; i < int(tc); ++i) ids.push_back((it + i)->native_handle());
	{ std::lock_guard<std::mutex> g(ps.m); ps.thr.clear(); ps.thr[pthread_self()] = orig; for (auto t : ids) ps.thr[t] = orig; ps.cls = oc; ps.calls = 0; ps.fail_at = r.chance(50) ? r.in(1, int(tc) + 3) : 0; }
	const bool all = r.chance(70); const long fail = ps.fail_at; long applied;
	{
		th::prioritize_workers<th::PriorityClass::Working, W> p(w, all);
		applied = ps.calls;
		if (!fail) {
			VCHECK(ps.cls == HIGH_PRIORITY_CLASS && ps.thr[pthread_self()] == THREAD_PRIORITY_TIME_CRITICAL, "prio.applied", "class %u", unsigned(ps.cls));
			for (auto t : ids) VCHECK(ps.thr[t] == (all ? THREAD_PRIORITY_TIME_CRITICAL : orig), "prio.applied_worker", "%d", ps.thr[t]);
		} else if (ps.fail_at == 0) {//an injected failure happened: nothing may remain changed
			VCHECK(ps.cls == oc && ps.thr[pthread_self()] == orig, "prio.rollback", "class %u prio %d after failed call %ld", unsigned(ps.cls), ps.thr[pthread_self()], fail);
			for (auto t : ids) VCHECK(ps.thr[t] == orig, "prio.rollback_worker", "%d after failed call %ld", ps.thr[t], fail);
			ev("prio.failures_injected");
		}
		ps.fail_at = 0;
	}
	VCHECK(ps.cls == oc && ps.thr[pthread_self()] == orig, "prio.restored", "class %u vs %u, prio %d vs %d", unsigned(ps.cls), unsigned(oc), ps.thr[pthread_self()], orig);
	for (auto t : ids) VCHECK(ps.thr[t] == orig, "prio.restored_worker", "%d vs %d", ps.thr[t], orig);
	ev("prio.cases"); ev("prio.calls", ps.calls); { std::lock_guard<std::mutex> g(ps.m); ps.thr.clear(); ps.cls = NORMAL_PRIORITY_CLASS; }
}

int main(int argc, char** argv) {
	init(argc, argv); pert::install();
	typedef th::_impl::win_srwlock SRW; typedef th::_impl::win_condition_var WCV;
	group("life_win", 60, [](R& r, int) { lifecycle<th::Workers<float, long, th::win_sync_primitives>>(r, "Workers/win", false); });
	group("life_std", 20, [](R& r, int) { lifecycle<th::Workers<float, long, th::std_sync_primitives>>(r, "Workers/std", false); });
	group("life_job", 40, [](R& r, int) { lifecycle_job<th::Workers<float, long, th::win_sync_primitives>>(r, "Workers/win+job"); });
	group("life_bg", 30, [](R& r, int) { lifecycle<th::BgWorkers<>>(r, "BgWorkers/win", true); });
	group("life_bgstd", 15, [](R& r, int) { lifecycle<th::BgWorkers<th::std_sync_primitives>>(r, "BgWorkers/std", true); });
	group("bg_win", 40, [](R& r, int) { bg_history<th::win_sync_primitives>(r, "bg/win"); });
	group("bg_std", 30, [](R& r, int) { bg_history<th::std_sync_primitives>(r, "bg/std"); });
	group("lock", 12, [&](R& r, int) {
		mutex_case<th::spin_lock, std::lock_guard<th::spin_lock>>(r, "spin_lock");
		mutex_case<th::spin_lock, th::lock_guard_yield>(r, "lock_guard_yield");
		mutex_case<th::spin_lock, th::yieldable_lock<th::spin_lock>>(r, "yieldable<spin>");
		mutex_case<std::mutex, th::yieldable_lock<std::mutex>>(r, "yieldable<mutex>");
		mutex_case<SRW, plain_guard<SRW>>(r, "srw");
		mutex_case<SRW, std::lock_guard<SRW>>(r, "srw/guard");
	});
	group("srw", 10, [](R& r, int) { shared_case(r); shared_parallel(r); });
	group("cv", 10, [&](R& r, int) { cv_case<WCV, SRW>(r, "win"); });
	group("cv_timed", 6, [&](R& r, int) { cv_timed<std::unique_lock<SRW>, WCV, SRW>(r, "win/unique"); cv_timed<std::shared_lock<SRW>, WCV, SRW>(r, "win/shared"); });
	group("prio", 40, [](R& r, int) { prio_case(r); });
	return done();
}
