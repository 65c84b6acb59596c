// P03: the synchronous thread pool: every item of a range is handed out exactly once, everything is finished (and visible)
// when run()/reduce() return, and reduce() returns what a serial reduction returns.
#include "prelude.h"
#include "nntl/math.h"
#include "nntl/common.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include "perturb.h"
using namespace vh;

namespace th = nntl::threads;
static unsigned g_hc = 4;
unsigned std::thread::hardware_concurrency() noexcept { return g_hc; }

struct chunk { long ofs, cnt; int tid; std::thread::id id; };

template<typename RealT, typename SyncT, typename CH>
void history(R& r, const char* nm) {
	typedef th::Workers<RealT, long, SyncT, CH> W;
	typedef typename W::par_range_t rng_t;
	typedef typename W::reduce_data_t red_t;
	g_hc = r.chance(30) ? 2 : r.in(2, 9);
	pert::arm(r.u64(), r.pick({ 0, 3, 15, 40 }));
	deadline dl(40, "pool.hang");
	{
		W w;
		const int wc = w.cur_workers_count();
		VCHECK(wc == int(g_hc) && int(W::workers_count()) == wc, "pool.workers_count", "%d vs %u", wc, g_hc);
		nntl::thread_id_t tc = 99; auto it = w.get_worker_threads(tc);
		VCHECK(int(tc) == wc - 1, "pool.worker_threads", "%d of %d", int(tc), wc);
		std::set<std::thread::id> pool_ids; for (int i = 0; i < wc - 1; ++i) pool_ids.insert((it + i)->get_id());
		VCHECK(int(pool_ids.size()) == wc - 1 && !pool_ids.count(std::this_thread::get_id()), "pool.thread_ids", "%zu ids", pool_ids.size());
		const int nops = r.in(4, 24);
		for (int op = 0; op < nops; ++op) {
			const long cnt = r.chance(10) ? r.in(0, 1) : (r.chance(60) ? r.in(2, 2 * wc + 3) : r.in(2, 2000));
			const int useN = r.chance(40) ? 0 : r.in(0, wc + 3);
			// plain (non-atomic) memory on purpose: the race detector has to see the pool order these accesses
			std::vector<int> hits(cnt + 1, 0);
			std::vector<long> data(cnt + 1, 0); for (long i = 0; i < cnt; ++i) data[i] = r.in(-1000, 1000);
			std::vector<std::vector<chunk>> log(wc + 2);
			std::mutex lm; std::vector<chunk> chunks;
			const auto me = std::this_thread::get_id();
			const int kind = r.below(5);
			auto rec = [&](const rng_t& g) {
				const long o = g.offset(), c = g.cnt();
				if (o < 0 || c < 0 || o + c > cnt || g.end() != o + c) { viol("pool.range", "offset %ld cnt %ld end %ld of %ld", o, c, long(g.end()), cnt); return; }
				pert::hit(20); for (long i = o; i < o + c; ++i) ++hits[i]; pert::hit(21);
				std::lock_guard<std::mutex> l(lm);
				chunks.push_back(chunk{ o, c, int(g.tid()), std::this_thread::get_id() });
			};
			auto audit = [&](const char* what, int used) {
				long tot = 0; std::set<int> tids;
				for (long i = 0; i < cnt; ++i) VCHECK(hits[i] == 1, "pool.once", "%s<%s>: item %ld of %ld processed %d times (workers %d, useN %d)", what, nm, i, cnt, hits[i], wc, useN);
				for (auto& c : chunks) {
					tot += c.cnt;
					VCHECK(c.tid >= 0 && c.tid < wc, "pool.tid_range", "%s: tid %d of %d workers", what, c.tid, wc);
					VCHECK(tids.insert(c.tid).second, "pool.tid_unique", "%s: tid %d used twice (cnt %ld, workers %d)", what, c.tid, cnt, wc);
					VCHECK((c.tid == 0) == (c.id == me), "pool.tid_main", "%s: tid %d on %s thread", what, c.tid, c.id == me ? "main" : "worker");
					VCHECK(c.id == me || pool_ids.count(c.id), "pool.foreign_thread", "%s", what);
					if (cnt > 0) VCHECK(c.cnt > 0, "pool.empty_chunk", "%s: tid %d got nothing of %ld", what, c.tid, cnt);
				}
				VCHECK(tot == cnt, "pool.total", "%s: chunks cover %ld of %ld", what, tot, cnt);
				VCHECK(tids.count(0), "pool.main_works", "%s", what);
				if (useN > 1 && useN <= wc) VCHECK(int(chunks.size()) <= useN, "pool.useN", "%s: %zu chunks when %d threads were asked for", what, chunks.size(), useN);
				if (used >= 0) VCHECK(used == int(chunks.size()), "pool.threads_used", "%s: reports %d threads, %zu chunks seen", what, used, chunks.size());
				if (cnt > 0) VCHECK(!tids.size() || *tids.rbegin() < int(chunks.size()), "pool.tid_compact", "%s: max tid %d with %zu chunks", what, *tids.rbegin(), chunks.size());
				ev("pool.chunks", chunks.size()); ev("pool.items", cnt);
				seen("pool", wc, useN > wc ? wc + 1 : useN, cnt > 2 * wc ? 100 + cnt % wc : cnt, kind, int(chunks.size()));
			};
			nntl::thread_id_t used = 77; pert::hit(22);
			if (kind == 0) {//big functor (passed by reference), rvalue
				w.run([&](const rng_t& g) { rec(g); }, cnt, useN, &used);
				audit("run(rvalue big)", used); ev("run");
			} else if (kind == 1) {//small functor
				auto* pr = &rec;
				w.run([pr](const rng_t& g) { (*pr)(g); }, cnt, useN);
				audit("run(rvalue small)", -1); ev("run");
			} else if (kind == 2) {//lvalue functor
				auto f = [&](const rng_t& g) { rec(g); };
				w.run(f, cnt, useN, &used);
				audit("run(lvalue)", used); ev("run");
			} else if (kind == 3) {
				auto* pr = &rec; auto* pd = &data;
				typedef typename W::template converter_reduce_data_t<long> conv;
				long nfin = -1; int finals = 0;
				const long got = w.reduce([pr, pd](const rng_t& g)->red_t {
					(*pr)(g); long s = 0; for (long i = g.offset(); i < g.offset() + g.cnt(); ++i) s += (*pd)[i];
					return conv::to(s);
				}, [&](const red_t* p, const long n)->long {
					++finals; nfin = n; long s = 0; for (long i = 0; i < n; ++i) s += conv::from(p[i]); return s;
				}, cnt, useN);
				long ex = 0; for (long i = 0; i < cnt; ++i) ex += data[i];
				VCHECK(got == ex, "pool.reduce_sum", "%s: %ld instead of %ld (cnt %ld, workers %d, useN %d)", nm, got, ex, cnt, wc, useN);
				VCHECK(finals <= 1, "pool.final_once", "%d", finals);
				audit("reduce(sum)", finals ? int(nfin) : -1); ev("reduce");
			} else {
				typedef typename W::template converter_reduce_data_t<RealT> conv;
				auto fr = [&](const rng_t& g)->red_t {
					rec(g); RealT s = std::numeric_limits<RealT>::lowest(); for (long i = g.offset(); i < g.offset() + g.cnt(); ++i) s = std::max(s, RealT(data[i]));
					return conv::to(s);
				};
				int nfin = -1;
				auto ff = [&](const red_t* p, const long n)->RealT { nfin = int(n); RealT s = conv::from(p[0]); for (long i = 1; i < n; ++i) s = std::max(s, conv::from(p[i])); return s; };
				const RealT got = w.reduce(fr, ff, cnt, useN);
				RealT ex = std::numeric_limits<RealT>::lowest(); for (long i = 0; i < cnt; ++i) ex = std::max(ex, RealT(data[i]));
				VCHECK(got == ex, "pool.reduce_max", "%s: %g instead of %g (cnt %ld, workers %d)", nm, double(got), double(ex), cnt, wc);
				audit("reduce(max)", nfin); ev("reduce");
			}
		}
		if (r.chance(30)) {
			nntl::disable_denormals();
			w.run([](const rng_t&) { nntl::disable_denormals(); }, wc, wc);
			VCHECK(!w.denormalsOnInAnyThread(), "pool.denormals_off", "all %d threads flush", wc);
			const int odd = r.below(wc);
			w.run([odd](const rng_t& g) { if (int(g.tid()) == odd) nntl::enable_denormals(); }, wc, wc);
			VCHECK(w.denormalsOnInAnyThread(), "pool.denormals_on", "thread %d of %d has denormals on", odd, wc);
			VCHECK((odd == 0) == nntl::isDenormalsOn(), "pool.denormals_main", "%d", odd);
			nntl::enable_denormals(); ev("denormals");
		}
	}
	pert::disarm(); ev("pool.destroyed");
	ev("perturbations", pert::taken());
}

template<typename T> void conv_case(R& r) {
	typedef typename th::Workers<float, long>::template converter_reduce_data_t<T> c;
	for (int i = 0; i < 50; ++i) {
		uint64_t b = r.u64(); T v; memcpy(&v, &b, sizeof(v)); const T q = c::from(c::to(v));
		VCHECK(!memcmp(&q, &v, sizeof(v)), "pool.converter", "bits %llx (size %zu)", (unsigned long long)b, sizeof(T)); ev("converted");
	}
}

int main(int argc, char** argv) {
	init(argc, argv); pert::install();
	group("win_f", 60, [](R& r, int) { history<float, th::win_sync_primitives, nntl::utils::cmcforwarderWrapper<2 * sizeof(void*)>>(r, "win,cmc"); });
	group("win_d", 30, [](R& r, int) { history<double, th::sync_primitives, nntl::utils::forwarderWrapper<>>(r, "win,fwd"); });
	group("std_f", 60, [](R& r, int) { history<float, th::std_sync_primitives, nntl::utils::cmcforwarderWrapper<2 * sizeof(void*)>>(r, "std,cmc"); });
	group("std_fn", 30, [](R& r, int) { history<float, th::std_sync_primitives, nntl::utils::simpleWrapper<std::function>>(r, "std,function"); });
	group("conv", 4, [](R& r, int) { conv_case<float>(r); conv_case<double>(r); conv_case<int>(r); conv_case<long>(r); conv_case<unsigned char>(r); conv_case<bool>; });
	return done();
}
