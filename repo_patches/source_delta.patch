From fb77bc987ebbaaa8467027e55b47ecaab962d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:38 +0000
Subject: [PATCH 01/62] fix: smatrix::clone_to_no_bias() must not add a bias
 column when the destination emulates biases

---
 nntl/interface/math/smatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4d7ef4a..5c15f12 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -496,7 +496,8 @@ namespace math {
 					NNTL_ASSERT(!"Wrong dest matrix!");
 					return false;
 				}
-			} else {				
+			} else {
+				dest.m_bEmulateBiases = false;//to make resize() work correctly if dest.m_bEmulateBiases==true
 				if (!dest.resize(m_rows, cnb)) {
 					NNTL_ASSERT(!"resize failed!");
 					return false;
-- 
2.43.0


From e982e87bbbdd209edd3de77520124246164bf38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:38 +0000
Subject: [PATCH 02/62] fix: strided _isBinary*VecWLd() walk past the vector
 end (pointer limit ignored the stride)

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 5c15f12..53c5422 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -169,7 +169,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -198,7 +198,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -217,7 +217,7 @@ namespace math {
 			const auto _one = T(1);
 			const auto _zero = T(0);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			T cond = T(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
-- 
2.43.0


From 6fb51d11ca560d080f598aa1dc6087594f260c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:38 +0000
Subject: [PATCH 03/62] fix: smatrix must survive a failed allocation (no bias
 write via nullptr; resize() to the same size retries)

---
 nntl/interface/math/smatrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 53c5422..885007a 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -342,7 +342,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -354,7 +354,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -366,7 +366,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (m_bEmulateBiases) set_biases();
+			if (m_bEmulateBiases && m_pData) set_biases();
 		}
 		
 		//useExternalStorage(value_ptr_t ptr, const smatrix& sizeLikeThis) variation
@@ -1058,7 +1058,7 @@ namespace math {
 				NNTL_ASSERT(!"Wrong row or col count!");
 				return false;
 			}
-			if (r == m_rows && c == m_cols) return true;
+			if (r == m_rows && c == m_cols && m_pData) return true;
 			m_rows = r;
 			m_cols = c;
 			_realloc();
-- 
2.43.0


From d68aa6f99c000d81ce43de08e0ef1fce5c157b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 04/62] fix: ~Workers() must set the stop flag under the mutex,
 or a worker misses the wakeup and join() hangs

---
 nntl/interface/threads/workers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/workers.h b/nntl/interface/threads/workers.h
index 177f22c..565a5f1 100644
--- a/nntl/interface/threads/workers.h
+++ b/nntl/interface/threads/workers.h
@@ -92,11 +92,11 @@ namespace threads {
 
 	public:
 		~Workers()noexcept {
+			//the lock is necessary, or a worker that has just seen m_bStop==false, but doesn't sleep yet, misses the notification
+			m_mutex.lock();
 			m_bStop = true;
-
-			//m_mutex.lock();
 			m_waitingOrders.notify_all();
-			//m_mutex.unlock();
+			m_mutex.unlock();
 
 			for (auto& t : m_threads)  t.join();
 		}
-- 
2.43.0


From 5502ff03c751970d70d3d457740bec6fafea0c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:37 +0000
Subject: [PATCH 05/62] fix: BgWorkers must not read the exec flag and the wait
 timeout without the mutex (data race with exec()/set_task_wait_timeout())

---
 nntl/interface/threads/bgworkers.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nntl/interface/threads/bgworkers.h b/nntl/interface/threads/bgworkers.h
index fee760a..66fab6d 100644
--- a/nntl/interface/threads/bgworkers.h
+++ b/nntl/interface/threads/bgworkers.h
@@ -287,17 +287,22 @@ namespace threads {
 
 			auto& bHas2Exec = m_threadHasSmth2Exec[id];
 			while (true) {
-				::std::atomic_thread_fence(::std::memory_order_acquire);//for m_taskWaitTO usage before mutex acquisition.
-				const auto sleepUntil = ::std::chrono::steady_clock::now() + m_taskWaitTO;
-				Sync_t::lockShared_waitFor_unlock(m_mutexTasks, m_waitingOrders, m_taskWaitTO
+				m_mutexTasks.lock_shared();
+				const auto taskWaitTO = m_taskWaitTO;
+				m_mutexTasks.unlock_shared();
+
+				const auto sleepUntil = ::std::chrono::steady_clock::now() + taskWaitTO;
+				bool bDoExec = false;//what was seen in bHas2Exec under the mutex. bHas2Exec mustn't be read without the mutex
+				Sync_t::lockShared_waitFor_unlock(m_mutexTasks, m_waitingOrders, taskWaitTO
 					, [&bStop = m_bStop, &bGo2Waiting = m_bGo2Waiting
-					, &tasks = m_tasks, &utime = sleepUntil, &h2e = bHas2Exec]()noexcept
+					, &tasks = m_tasks, &utime = sleepUntil, &h2e = bHas2Exec, &bDoExec]()noexcept
 				{
-					return bStop || (::std::chrono::steady_clock::now() > utime && !bGo2Waiting && tasks.size() > 0) || h2e;
+					bDoExec = !!h2e;
+					return bStop || (::std::chrono::steady_clock::now() > utime && !bGo2Waiting && tasks.size() > 0) || bDoExec;
 				});
 				if (m_bStop) break;
 
-				if (bHas2Exec) {
+				if (bDoExec) {
 					m_execFn(id);
 
 					m_mutexTasks.lock_shared();
-- 
2.43.0


From fdd34368f5e5cb6d3a65dd151bd76fdec5ce5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:32 +0000
Subject: [PATCH 06/62] fix: win_condition_var::wait_for*() report the timeout
 status inverted and ignore the timeout when a predicate is given

---
 nntl/interface/threads/_sync_primitives.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/nntl/interface/threads/_sync_primitives.h b/nntl/interface/threads/_sync_primitives.h
index 25f5c26..8edfefa 100644
--- a/nntl/interface/threads/_sync_primitives.h
+++ b/nntl/interface/threads/_sync_primitives.h
@@ -284,14 +284,14 @@ namespace threads {
 				auto sleepUntil = ::std::chrono::steady_clock::now() + rel_time;
 				::SleepConditionVariableSRW(&m_var, l, _to_ms(rel_time), 0);
 				::std::atomic_thread_fence(::std::memory_order_acquire);
-				return sleepUntil > ::std::chrono::steady_clock::now() ? ::std::cv_status::timeout : ::std::cv_status::no_timeout;
+				return sleepUntil > ::std::chrono::steady_clock::now() ? ::std::cv_status::no_timeout : ::std::cv_status::timeout;
 			}
 			template< class Rep, class Period >
 			::std::cv_status wait_for_shared(win_srwlock& l, const ::std::chrono::duration<Rep, Period>& rel_time) {
 				auto sleepUntil = ::std::chrono::steady_clock::now() + rel_time;
 				::SleepConditionVariableSRW(&m_var, l, _to_ms(rel_time), CONDITION_VARIABLE_LOCKMODE_SHARED);
 				::std::atomic_thread_fence(::std::memory_order_acquire);
-				return sleepUntil > ::std::chrono::steady_clock::now() ? ::std::cv_status::timeout : ::std::cv_status::no_timeout;
+				return sleepUntil > ::std::chrono::steady_clock::now() ? ::std::cv_status::no_timeout : ::std::cv_status::timeout;
 			}
 
 			template< class Rep, class Period >
@@ -306,13 +306,13 @@ namespace threads {
 #pragma warning(disable:4706)
 			template<class Rep, class Period, typename Predicate>
 			bool wait_for(win_srwlock& l, const ::std::chrono::duration<Rep, Period>& rel_time, Predicate&& pred)noexcept {
-				::std::cv_status r(::std::cv_status::no_timeout);
+				const auto sleepUntil = ::std::chrono::steady_clock::now() + rel_time;
 				bool b;
-				//while (!(b = ((::std::forward<Predicate>(pred))()))) {
 				while (!(b = (pred()))) {
-					r = wait_for(l, rel_time);
+					if (::std::chrono::steady_clock::now() >= sleepUntil) break;
+					wait_for(l, rel_time);
 				}
-				return r == ::std::cv_status::no_timeout ? true : b;
+				return b;
 #pragma warning(default:4706)
 			}
 			template<class Rep, class Period, typename Predicate>
@@ -322,13 +322,13 @@ namespace threads {
 #pragma warning(disable:4706)
 			template<class Rep, class Period, typename Predicate>
 			bool wait_for_shared(win_srwlock& l, const ::std::chrono::duration<Rep, Period>& rel_time, Predicate&& pred)noexcept {
-				::std::cv_status r(::std::cv_status::no_timeout);
+				const auto sleepUntil = ::std::chrono::steady_clock::now() + rel_time;
 				bool b;
-				//while (!(b = ((::std::forward<Predicate>(pred))()))) {
 				while (!(b = (pred()))) {
-					r = wait_for_shared(l, rel_time);
+					if (::std::chrono::steady_clock::now() >= sleepUntil) break;
+					wait_for_shared(l, rel_time);
 				}
-				return r == ::std::cv_status::no_timeout ? true : b;
+				return b;
 #pragma warning(default:4706)
 			}
 			template<class Rep, class Period, typename Predicate>
-- 
2.43.0


From 73307288fc8a9863973354a83db2dd575c308ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 07/62] fix: ConfusionMtx::MCC() overflows the integer type of
 the counts

---
 nntl/utils/confusion_mtx.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/confusion_mtx.h b/nntl/utils/confusion_mtx.h
index 54f7dcc..7d035e8 100644
--- a/nntl/utils/confusion_mtx.h
+++ b/nntl/utils/confusion_mtx.h
@@ -108,8 +108,10 @@ namespace nntl {
 			real_t Markedness()const noexcept { return PPV() + NPV() - real_t(1.); }
 			
 			real_t MCC()const noexcept {
-				const auto den = (TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
-				return den ? static_cast<real_t>(TP()*TN() - FP()*FN()) / ::std::sqrt(static_cast<real_t>(den))  : real_t(0.);
+				//integer products of counts overflow vec_len_t very soon
+				const double tp = TP(), tn = TN(), fp = FP(), fn = FN();
+				const double den = (tp + fp)*(tp + fn)*(tn + fp)*(tn + fn);
+				return den > 0 ? static_cast<real_t>((tp*tn - fp*fn) / ::std::sqrt(den)) : real_t(0.);
 			}
 
 			real_t Jaccard()const noexcept {
-- 
2.43.0


From 667522a480f8f6a77c497963e78a7650b815807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 08/62] fix: layer_settings::set_default() flows off its end
 without returning a value

---
 nntl/utils/layers_settings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/utils/layers_settings.h b/nntl/utils/layers_settings.h
index bc01183..700e506 100644
--- a/nntl/utils/layers_settings.h
+++ b/nntl/utils/layers_settings.h
@@ -80,6 +80,7 @@ namespace utils {
 			if (!m_keeper.empty())
 				m_keeper.pop_front();
 			m_keeper.push_front(::std::forward<ST>(def));
+			return *this;
 		}
 
 		const setts_t& get(const layer_index_t idx)const noexcept {
-- 
2.43.0


From 71423e42c050d15f3d04b0337dfc47abfb02aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 09/62] fix: dataHolder::nextBatch() must not reshuffle before
 the last full batch has been served

---
 nntl/utils/dataHolder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 83ee29b..5c7750f 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -168,7 +168,7 @@ namespace utils {
 				//nothing to do here
 			} else {
 				NNTL_ASSERT(m_rowsIdxs.size());
-				if (m_next >= m_rowsIdxs.cend() - curBatchSize()) {
+				if (m_next > m_rowsIdxs.cend() - curBatchSize()) {
 					m_next = m_rowsIdxs.cbegin();
 					::std::random_shuffle(m_rowsIdxs.begin(), m_rowsIdxs.end(), iR);
 				}
-- 
2.43.0


From da887e382f226c4607f047a99cfed0e4609e121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 10/62] fix: layer_idx_keeper::nestingLevel() compares an index
 with an iterator

---
 nntl/utils/layer_idx_keeper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/utils/layer_idx_keeper.h b/nntl/utils/layer_idx_keeper.h
index f9faab2..aa6a826 100644
--- a/nntl/utils/layer_idx_keeper.h
+++ b/nntl/utils/layer_idx_keeper.h
@@ -99,7 +99,7 @@ namespace utils {
 			const auto s = _base_class_t::size();
 			const auto t = _base_class_t::top();
 			for (size_type i = 2; i <= s; ++i) {
-				if (t != ::std::prev(_base_class_t::_Get_container().end(), i)) {
+				if (t != *::std::prev(_base_class_t::_Get_container().end(), i)) {
 					break;
 				}
 				++nl;
-- 
2.43.0


From 89b72e48bb6613f48044725fb62d1a6c209ff30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 11/62] fix: duration_readable() must not scale the value
 beyond the unit it prints (long periods were shown 1000 times shorter)

---
 nntl/utils/chrono.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/nntl/utils/chrono.h b/nntl/utils/chrono.h
index 5f38b73..05aa3a9 100644
--- a/nntl/utils/chrono.h
+++ b/nntl/utils/chrono.h
@@ -86,6 +86,13 @@ namespace utils {
 			//static constexpr const strchar_t* name = NNTL_STRING("ns");
 			static constexpr const char* name = "ns";
 		};
+
+		//how many fine_t units are in a single coarse_t unit
+		template<typename coarse_t, typename fine_t>
+		constexpr double period_ratio()noexcept {
+			typedef ::std::ratio_divide<typename coarse_t::period, typename fine_t::period> r_t;
+			return static_cast<double>(r_t::num) / static_cast<double>(r_t::den);
+		}
 	}
 	
 
@@ -93,27 +100,22 @@ namespace utils {
 	static ::std::string duration_readable(durType d, uint64_t repeats=1, double* ptrSingleTime=nullptr)noexcept {
 		double t = static_cast<double>(d.count())/repeats;
 		if (ptrSingleTime) *ptrSingleTime = t;
+		//there's no unit bigger than a second, therefore the divisor must be taken from the unit actually used
+		typedef typename chrono::period_3oom_bigger<durType>::type dur1_t;
+		typedef typename chrono::period_3oom_bigger<dur1_t>::type dur2_t;
+		typedef typename chrono::period_3oom_bigger<dur2_t>::type dur3_t;
 		const char* name;
 		if (t<1000) {
 			name = chrono::period_name<durType>::name;
 		}else if (t < 1000000) {
-			t /= 1000;
-			name = chrono::period_name<
-				typename chrono::period_3oom_bigger<durType>::type
-			>::name;
+			t /= chrono::period_ratio<dur1_t, durType>();
+			name = chrono::period_name<dur1_t>::name;
 		} else if (t < 1000000000) {
-			t /= 1000000;
-			name = chrono::period_name<
-				typename chrono::period_3oom_bigger<
-				typename chrono::period_3oom_bigger<durType>::type
-				>::type >::name;
+			t /= chrono::period_ratio<dur2_t, durType>();
+			name = chrono::period_name<dur2_t>::name;
 		} else {
-			t /= 1000000000;
-			name = chrono::period_name<
-				typename chrono::period_3oom_bigger<
-				typename chrono::period_3oom_bigger<
-				typename chrono::period_3oom_bigger<durType>::type
-				>::type >::type >::name;
+			t /= chrono::period_ratio<dur3_t, durType>();
+			name = chrono::period_name<dur3_t>::name;
 		}
 		constexpr unsigned MAX_STR_SIZE = 256;
 		char str[MAX_STR_SIZE];
-- 
2.43.0


From 9ecdaa98ca0f66eeacfb202633f375ff308f226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:38 +0000
Subject: [PATCH 12/62] fix: missing comma made the
 ILR_props(decr,incr,capLow,capHigh) constructor ill-formed

---
 nntl/grad_works/ILR_Props.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/grad_works/ILR_Props.h b/nntl/grad_works/ILR_Props.h
index d4df737..e425995 100644
--- a/nntl/grad_works/ILR_Props.h
+++ b/nntl/grad_works/ILR_Props.h
@@ -61,7 +61,7 @@ namespace GW { //GW namespace is for grad_works mixins and other stuff, that hel
 			: mulDecr(decr), mulIncr(incr), capLow(cLow), capHigh(cHigh) {}
 
 		ILR_props(const real_t& decr, const real_t& incr, const real_t& cLow, const real_t& cHigh)noexcept {
-			set(decr, incr, cLow cHigh);
+			set(decr, incr, cLow, cHigh);
 		}
 		void set(const real_t& decr, const real_t& incr, const real_t& cLow, const real_t& cHigh)noexcept {
 			NNTL_ASSERT((decr > 0 && decr < 1 && incr > 1 && cHigh > cLow && cLow > 0) || (decr == 0 && incr == 0 && cHigh == 0 && cLow == 0));
-- 
2.43.0


From b7d59e00e15fd3f0905e8d39f51af97b18cb90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:38 +0000
Subject: [PATCH 13/62] fix: gw_init() with individual learning rates
 dereferenced the not yet set common data

---
 nntl/grad_works/grad_works.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/grad_works/grad_works.h b/nntl/grad_works/grad_works.h
index fd24878..59cdbdd 100644
--- a/nntl/grad_works/grad_works.h
+++ b/nntl/grad_works/grad_works.h
@@ -300,9 +300,9 @@ namespace nntl {
 				if (!m_optMtxB.resize(weightsSize))return false;
 			}
 
-			if (!ILR_init(weightsSize))return false;
+			set_common_data(cd);//ILR_init() needs it
 
-			set_common_data(cd);
+			if (!ILR_init(weightsSize))return false;
 
 			//we would need twice weightsNumel to make LRDropout for NesterovMomentum if necessary
 			//Currently also see implementation of max_norm2 enforcer mCheck_normalize_rows()
-- 
2.43.0


From 7fd606c74ea2e2a427b6662e541bf61155dd248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:50 +0000
Subject: [PATCH 14/62] fix: walk_over_set() dropped the last sample when it
 was alone in the last batch

---
 nntl/train_data/_train_data_simple.h | 2 +-
 nntl/train_data/transf_train_data.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 094bad4..ddc6c16 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -366,7 +366,7 @@ namespace nntl {
 				}
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 51d2262..0848e75 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -442,7 +442,7 @@ namespace nntl {
 				m_TFunct.walk(m_tdStor, dataSetId, cd, m_curBatchSize, excludeDataFlag, &m_pCurBatchX, &m_pCurBatchY);
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
-- 
2.43.0


From 001dd7f2e516d5b32743d8e10531e3c118d4ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:50 +0000
Subject: [PATCH 15/62] fix: walk_over_train_set()/walk_over_test_set() could
 not be compiled in debug mode

---
 nntl/train_data/_td_base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_td_base.h b/nntl/train_data/_td_base.h
index 20ed946..14fa30a 100644
--- a/nntl/train_data/_td_base.h
+++ b/nntl/train_data/_td_base.h
@@ -88,12 +88,14 @@ namespace _impl {
 		//convenience wrappers around walk_over_set(). Always uses maxFPropSize returned from init*() as a batch size
 		template<typename CommonDataT>
 		numel_cnt_t walk_over_train_set(const CommonDataT& cd)noexcept {
-			NNTL_ASSERT(get_self().is_initialized4inference());
+			NNTL_DEBUG_DECLARE(vec_len_t _bs = 0);
+			NNTL_ASSERT(get_self().is_initialized4inference(_bs));
 			return get_self().walk_over_set(train_set_id, cd);
 		}
 		template<typename CommonDataT>
 		numel_cnt_t walk_over_test_set(const CommonDataT& cd)noexcept {
-			NNTL_ASSERT(get_self().is_initialized4inference());
+			NNTL_DEBUG_DECLARE(vec_len_t _bs = 0);
+			NNTL_ASSERT(get_self().is_initialized4inference(_bs));
 			return get_self().walk_over_set(test_set_id, cd);
 		}
 
-- 
2.43.0


From c97a39ee336eb2613af9ccd754514f224b7a9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:50 +0000
Subject: [PATCH 16/62] fix: is_initialized4train() accepted batch sizes the
 full-batch mode can't serve and changed its arguments while refusing

---
 nntl/train_data/_train_data_simple.h | 12 +++++++-----
 nntl/train_data/transf_train_data.h  |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index ddc6c16..325993f 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -162,13 +162,15 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs) return false;
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
-				bMiniBatch = !m_batch_x.empty();
+				bMiniBatch = m_bMiniBatchTraining;
 				return true;
 			}
 
@@ -247,8 +249,8 @@ namespace nntl {
 					batchSize = cd.input_batch_size();
 				}
 				NNTL_ASSERT(batchSize > 0 && batchSize <= m_maxTrainBatchSize);
-				NNTL_DEBUG_DECLARE(auto _tfbs = batchSize; auto _ttbs = batchSize; bool _bMb;);
-				NNTL_ASSERT(get_self().is_initialized4train(_tfbs, _ttbs, _bMb) && _tfbs == batchSize && _ttbs == batchSize);
+				NNTL_DEBUG_DECLARE(vec_len_t _tfbs = 0; auto _ttbs = batchSize; bool _bMb;);
+				NNTL_ASSERT(get_self().is_initialized4train(_tfbs, _ttbs, _bMb) && _ttbs == batchSize);
 				NNTL_ASSERT(batchSize <= get_self().trainset_samples_count());
 
 				m_curBatchSize = batchSize;
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 0848e75..4dd892e 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -280,12 +280,14 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes
 				const auto dr = ::std::div(tbs, m_TFunct.samplesInBaseSample());
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| 0 != dr.rem || tbs > fpropBs) return false;
+					|| 0 != dr.rem || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = dr.quot < get_self().base_trainset_samples_count();
 				return true;
-- 
2.43.0


From 5689201df6bd3292932d90f155c97efd30590502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:50 +0000
Subject: [PATCH 17/62] fix: absorb() and replace_Y() must compare batch and
 sample sizes, not rows and columns, or batch-in-row data is refused or
 mismatched data is taken

---
 nntl/train_data/inmem_train_data_stor.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nntl/train_data/inmem_train_data_stor.h b/nntl/train_data/inmem_train_data_stor.h
index 00ff57c..3f91f2e 100644
--- a/nntl/train_data/inmem_train_data_stor.h
+++ b/nntl/train_data/inmem_train_data_stor.h
@@ -176,10 +176,10 @@ namespace nntl {
 			static bool absorbsion_will_succeed(const x_mtxdef_t& _train_x, const y_mtxdef_t& _train_y
 				, const x_mtxdef_t& _test_x, const y_mtxdef_t& _test_y)noexcept //, const bool noBiasEmulationNecessary) noexcept
 			{
-				return !_train_x.empty() && !_train_y.empty() && _train_x.rows() == _train_y.rows()
-					&& !_test_x.empty() && !_test_y.empty() && _test_x.rows() == _test_y.rows()
-					&& _train_y.cols() == _test_y.cols()
-					&& _train_x.cols() == _test_x.cols()
+				return !_train_x.empty() && !_train_y.empty() && _train_x.batch_size() == _train_y.batch_size()
+					&& !_test_x.empty() && !_test_y.empty() && _test_x.batch_size() == _test_y.batch_size()
+					&& _train_y.sample_size() == _test_y.sample_size() && _train_y.bBatchInRow() == _test_y.bBatchInRow()
+					&& _train_x.sample_size() == _test_x.sample_size() && _train_x.bBatchInRow() == _test_x.bBatchInRow()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& _train_x.emulatesBiases() && _test_x.emulatesBiases()
 					&& !_train_x.bDontManageStorage() && !_test_x.bDontManageStorage()
@@ -191,9 +191,9 @@ namespace nntl {
 			// #supportsBatchInRow
 			bool replace_Y_will_succeed(const y_mtxdef_t& _train_y, const y_mtxdef_t& _test_y)const noexcept
 			{
-				return !_train_y.empty() && _train_y.rows() == train_y().rows()
-					&& !_test_y.empty() && _test_y.rows() == test_y().rows()
-					&& _train_y.cols() == _test_y.cols()
+				return !_train_y.empty() && _train_y.batch_size() == train_y().batch_size()
+					&& !_test_y.empty() && _test_y.batch_size() == test_y().batch_size()
+					&& _train_y.sample_size() == _test_y.sample_size() && _train_y.bBatchInRow() == _test_y.bBatchInRow()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& !_train_y.bDontManageStorage() && !_test_y.bDontManageStorage()
 					;
-- 
2.43.0


From f4cc80eae9ad86bfd4d8e83e5f82d58adef1b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:55 +0000
Subject: [PATCH 18/62] fix: is_initialized4inference() refused smaller batches
 for batch-in-row data prepared for mini-batch inferencing

---
 nntl/train_data/_train_data_simple.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 325993f..ce5615a 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -131,7 +131,8 @@ namespace nntl {
 				const auto tbs = bs ? bs : m_maxFPropSize;
 				if (get_self().empty() || 0 == m_maxFPropSize || tbs > m_maxFPropSize) return false;
 				//fullbatch mode must support only exactly specified batch sizes				
-				if (tbs < m_maxFPropSize && m_batch_x.empty()) return false;
+				if (tbs < m_maxFPropSize && m_batch_x.empty() 
+					&& m_maxFPropSize >= get_self().biggest_samples_count()) return false;//batch-in-row data doesn't use m_batch_x for inferencing
 				bs = tbs;
 				return true;
 			}
-- 
2.43.0


From df598f853e295ac6430cf15d6b1ee8797f08e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:33 +0000
Subject: [PATCH 19/62] fix: nnet::calcLossAndReport() must return the mean
 loss over the whole set

It summed per-batch means, so the reported loss was multiplied by about the
number of evaluation batches whenever maxFpropSize was less than the set size.
---
 nntl/nnet.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9383a1b..2485073 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -276,6 +276,7 @@ namespace nntl {
 			const auto& cd = get_const_common_data();
 			const auto& activations = *m_Layers.output_layer().get_activations_storage();//we won't touch it until it's valid
 			real_t lossVal(0);
+			numel_cnt_t samplesCnt(0);
 
 			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd);
 			NNTL_ASSERT(batchesCnt > 0);
@@ -284,13 +285,17 @@ namespace nntl {
 
 			for (numel_cnt_t bi = 0; bi < batchesCnt; ++bi) {
 				td.next_subset(bi, cd);
-				lossVal += _calcLoss4batch(td.batchX(), td.batchY());
+				lossVal += _calcLoss4batch_nonnormalized(td.batchX(), td.batchY());
+				samplesCnt += td.batchY().batch_size();
 
 				NNTL_ASSERT(m_Layers.output_layer().is_activations_valid());
 				NNTL_ASSERT(&activations == m_Layers.output_layer().get_activations_storage());//sanity check
 				obs.report_results(bi, activations, td.batchY(), cd);
 			}
 
+			//the set may be evaluated in several batches (of different sizes), so normalizing by the total number of samples
+			lossVal /= samplesCnt;
+
 			//after calculating loss based on batch data, we must add a loss based on layers properties/parameters
 			if (m_bCalcFullLossValue) lossVal += m_Layers.calcLossAddendum();
 
-- 
2.43.0


From 5374aae08cf17ae131be514ef562f07f0375156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:33 +0000
Subject: [PATCH 20/62] fix: nnet::train() must use the requested batch size on
 an already initialized nnet

A second train() with a smaller batch size (without deinit) ran layers with the
batch size of the first call while the data was fed with the new one.
---
 nntl/nnet.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 2485073..ede9498 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -584,7 +584,9 @@ namespace nntl {
 			
 			// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer());
-			_set_mode_and_batch_size(0);//prepare for training (sets to maxBatchSize, that's already stored in common_data structure)
+			//prepare for training. Note that common_data may store bigger training batch size if the nnet was initialized by
+			// an earlier call, therefore maxBatchSize must be set explicitly
+			_set_training_mode_and_batch_size(maxBatchSize);
 
 #if NNTL_DEBUG_CHECK_DENORMALS_ON_EACH_EPOCH
 			STDCOUTL("Denormals check... " << (get_iMath().ithreads().denormalsOnInAnyThread() ? "FAILED!!!" : "passed.") 
@@ -660,8 +662,8 @@ namespace nntl {
 					// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 					if (!onEpochEndCB(/**this, opts,*/ epochIdx)) break;
 
-					//should always call _set_mode_and_batch_size(0) because onEpochEndCB could change this object state
-					_set_mode_and_batch_size(0);
+					//should always set the mode and batch size because onEpochEndCB could change this object state
+					_set_training_mode_and_batch_size(maxBatchSize);
 				}
 			}
 
-- 
2.43.0


From 32c239031b0e3bdd3ac55f6ac5a271f0193af2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:37 +0000
Subject: [PATCH 21/62] fix: weights initialization must not inspect contents
 of the not yet initialized weight matrix

isWeightsSuitable() tested for NaNs memory that has just been allocated by
layer_init() (and weights a user wants to drop with reinit_weights()), so a debug
build aborted at random depending on the heap garbage.
---
 nntl/layer/fully_connected.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/layer/fully_connected.h b/nntl/layer/fully_connected.h
index ae7ef55..2d17d6d 100644
--- a/nntl/layer/fully_connected.h
+++ b/nntl/layer/fully_connected.h
@@ -129,13 +129,13 @@ namespace nntl {
 				NNTL_ASSERT(!"Wrong weight matrix passed!");
 				return false;
 			}
-			NNTL_ASSERT(W.test_noNaNs());
 			return true;
 		}
 
 		//note: it should be called after assembling layers into a layer_pack, b/c it requires _incoming_neurons_cnt
 		bool set_weights(realmtx_t&& W)noexcept {
 			if (!get_self().isWeightsSuitable(W)) return false;
+			NNTL_ASSERT(W.test_noNaNs());
 			get_self().drop_weights();
 
 			m_weights = ::std::move(W);
@@ -144,6 +144,7 @@ namespace nntl {
 		}
 		bool set_weights(const realmtx_t& W)noexcept {
 			if (!get_self().isWeightsSuitable(W)) return false;
+			NNTL_ASSERT(W.test_noNaNs());
 			get_self().drop_weights();
 
 			if (!m_weights.cloneFrom(W)) return false;
@@ -193,6 +194,7 @@ namespace nntl {
 					STDCOUTL("WTF? Wrong weight matrix @layer " << get_self().get_layer_idx() << " " << get_self().get_layer_name_str());
 					abort();
 				}
+				NNTL_ASSERT(m_weights.test_noNaNs());
 			} else {
 				NNTL_ASSERT(!m_bWeightsInitialized);//if this assert has fired, then you've tried to use incorrectly sized
 				//weight matrix. It'll be handled here, so you may safely skip the assert, but you have to know, it was a bad idea.
-- 
2.43.0


From cca0927702924c21a3b8be9d19c58d426ce38c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:18 +0000
Subject: [PATCH 22/62] fix: nnet::train() must evaluate with the batch size
 the nnet is initialized to

With bForceReinitTD(false) and a TD that had been initialized for bigger
maxFpropSize, the loss evaluation fed the nnet with batches exceeding its own
(just allocated) buffers.
---
 nntl/nnet.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index ede9498..8987a72 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -234,7 +234,9 @@ namespace nntl {
 
 		//returns train loss value
 		template<typename TrainDataT, typename Observer>
-		real_t _report_training_progress(const numel_cnt_t epoch, TrainDataT& td, const ::std::chrono::nanoseconds& tElapsed, Observer& obs) noexcept {
+		real_t _report_training_progress(const numel_cnt_t epoch, TrainDataT& td, const ::std::chrono::nanoseconds& tElapsed, Observer& obs
+			, const vec_len_t maxFPropSize) noexcept
+		{
 			//relaxing thread priorities (we don't know in advance what callback functions actually do, so better relax it)
 			//threads_relaxer_tpl<bPrioritizeThreads> pw(get_iMath().ithreads());
 			// note sure it's necessary so pending for removal. If should be restored - wrap each obs.report_results() call instead of
@@ -243,8 +245,8 @@ namespace nntl {
 			m_Layers.resetCalcLossAddendum();//no need to additionally check m_bCalcFullLossValue, because
 			// resetCalcLossAddendum() is extremely cheap operation
 
-			const real_t trainLoss = calcLossAndReport(td, train_set_id, obs);
-			const auto testLoss = calcLossAndReport(td, test_set_id, obs);
+			const real_t trainLoss = calcLossAndReport(td, train_set_id, obs, maxFPropSize);
+			const auto testLoss = calcLossAndReport(td, test_set_id, obs, maxFPropSize);
 
 			obs.on_training_fragment_end(epoch, trainLoss, testLoss, tElapsed);			
 			return trainLoss;
@@ -260,8 +262,9 @@ namespace nntl {
 		//note that nnet object MUST already be initialized via train() or similar function to call
 		//observer used here MUST be initialized in conjunction with this nnet object.
 		// Intended to be used during/after training
+		// maxFPropSize has the same meaning as for _i_train_data::walk_over_set()
 		template<typename TrainDataT, typename Observer>
-		real_t calcLossAndReport(TrainDataT& td, const data_set_id_t dataSetId, Observer& obs) noexcept {
+		real_t calcLossAndReport(TrainDataT& td, const data_set_id_t dataSetId, Observer& obs, const vec_len_t maxFPropSize = -1) noexcept {
 			NNTL_UNREF(obs); //observer may have only dummy functions that gets removed by optimizer.
 			NNTL_ASSERT(dataSetId >= 0 && dataSetId < td.datasets_count());
 			NNTL_ASSERT(!td.empty());
@@ -278,7 +281,7 @@ namespace nntl {
 			real_t lossVal(0);
 			numel_cnt_t samplesCnt(0);
 
-			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd);
+			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd, maxFPropSize);
 			NNTL_ASSERT(batchesCnt > 0);
 
 			obs.report_results_begin(dataSetId, batchesCnt);
@@ -583,7 +586,7 @@ namespace nntl {
 			opts.observer().on_training_start(td, maxBatchSize, maxFPropSize, m_LMR.totalParamsToLearn);
 			
 			// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
-			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer());
+			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer(), maxFPropSize);
 			//prepare for training. Note that common_data may store bigger training batch size if the nnet was initialized by
 			// an earlier call, therefore maxBatchSize must be set explicitly
 			_set_training_mode_and_batch_size(maxBatchSize);
@@ -645,7 +648,7 @@ namespace nntl {
 							STDCOUTL(szRep);
 						} else {
 							// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
-							const auto trainLoss = _report_training_progress(epochIdx, td, periodTime, opts.observer());
+							const auto trainLoss = _report_training_progress(epochIdx, td, periodTime, opts.observer(), maxFPropSize);
 							if (bCheckForDivergence && trainLoss >= opts.divergenceCheckThreshold())
 								return _set_last_error(ErrorCode::NNDiverged);
 						}
-- 
2.43.0


From 077f8db8e80cdf5c60faedaa138e711f87bd4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:25 +0000
Subject: [PATCH 23/62] fix: horizontal packs must be initializable for
 inferencing only

The sanity check asked inner layers for the outgoing batch size of the zero
(=inference only) training batch, which aborts a debug build.
---
 nntl/layer/_lph_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/layer/_lph_base.h b/nntl/layer/_lph_base.h
index 37c3f4d..21b1766 100644
--- a/nntl/layer/_lph_base.h
+++ b/nntl/layer/_lph_base.h
@@ -307,7 +307,7 @@ namespace nntl {
 
 				NNTL_ASSERT(lid.outgBS.isValid());
 				NNTL_ASSERT(lid.outgBS.maxBS == _outgoing_batch_size_for(lid.incBS.maxBS));
-				NNTL_ASSERT(lid.outgBS.maxTrainBS == _outgoing_batch_size_for(lid.incBS.maxTrainBS));
+				NNTL_ASSERT(lid.outgBS.maxTrainBS == (lid.incBS.maxTrainBS ? _outgoing_batch_size_for(lid.incBS.maxTrainBS) : 0));
 
 				//now initializing base
 				ec = _base_class_t::layer_init(lid, pNewActivationStorage);
-- 
2.43.0


From 94d980a2736cca6493edc9859d3fdb419ab89cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:25 +0000
Subject: [PATCH 24/62] fix: a failure to initialize a layer of a horizontal
 pack must be reported instead of being asserted on

---
 nntl/layer/_lph_base.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nntl/layer/_lph_base.h b/nntl/layer/_lph_base.h
index 21b1766..f501554 100644
--- a/nntl/layer/_lph_base.h
+++ b/nntl/layer/_lph_base.h
@@ -281,9 +281,11 @@ namespace nntl {
 						} else failedLayerIdx = l.get_layer_idx();
 					}
 				});
-				NNTL_ASSERT(commonOutgBS.isValid());
-				lid.outgBS = commonOutgBS;
-				NNTL_ASSERT(firstNeuronOfs + 1 == m_activations.cols());
+				if (ErrorCode::Success == ec) {
+					NNTL_ASSERT(commonOutgBS.isValid());
+					lid.outgBS = commonOutgBS;
+					NNTL_ASSERT(firstNeuronOfs + 1 == m_activations.cols());
+				}
 				return ec;
 			}
 
-- 
2.43.0


From c9b60a67200d441eb542577be2c7cbc495ee7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:59 +0000
Subject: [PATCH 25/62] fix: a horizontal pack nested into another pack must
 remember that its activation storage is shared

The flag was reset during layer_init(), so a debug build aborted on the first
on_batch_size_change().
---
 nntl/layer/_lph_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nntl/layer/_lph_base.h b/nntl/layer/_lph_base.h
index f501554..7a156b5 100644
--- a/nntl/layer/_lph_base.h
+++ b/nntl/layer/_lph_base.h
@@ -314,6 +314,8 @@ namespace nntl {
 				//now initializing base
 				ec = _base_class_t::layer_init(lid, pNewActivationStorage);
 				if (ErrorCode::Success != ec) return ec;
+				//base class resets the flag, that was set by _lph_act_stor_init_activations()
+				_set_activations_shared(!!pNewActivationStorage);
 
 				// - we can't pass dLdA & dLdAPrev to encapsulated layers, because they could also be compound and may require
 				//		a far bigger matrix sizes than dLdA allows. Therefore we must calculate the biggest max_dLdA_numel 
-- 
2.43.0


From b792cd5e95a5855ff99d5b12613899bf252178e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:34 +0000
Subject: [PATCH 26/62] fix: NaN self-checks of a layer with shared activations
 must not inspect the bias column that belongs to a neighbor layer

---
 nntl/layer/_activation_storage.h | 9 ++++++++-
 nntl/layer/_activation_wrapper.h | 4 ++--
 nntl/layer/fully_connected.h     | 2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/nntl/layer/_activation_storage.h b/nntl/layer/_activation_storage.h
index a5c0825..b578154 100644
--- a/nntl/layer/_activation_storage.h
+++ b/nntl/layer/_activation_storage.h
@@ -58,12 +58,19 @@ namespace _impl {
 			m_activations.emulate_biases(!is_layer_output<self_t>::value);
 		}
 
+		// alias to the part of m_activations that belongs to this layer. When the activation storage is shared, the bias column
+		// is not a part of it - this column belongs to a neighbor layer and might not have been computed yet
+		realmtx_t _get_owned_activations()const noexcept {
+			const auto pAct = const_cast<real_t*>(m_activations.data());
+			return is_activations_shared() ? realmtx_t(pAct, m_activations, math::tag_noBias()) : realmtx_t(pAct, m_activations);
+		}
+
 	public:
 		// Class assumes that the content of the m_activations matrix on the beginning of the bprop() is the same as it was on exit from fprop().
 		// Don't change it outside of the class!
 		const realmtxdef_t& get_activations()const noexcept {
 			NNTL_ASSERT(m_bActivationsValid);
-			NNTL_ASSERT_MTX_NO_NANS(m_activations);
+			NNTL_ASSERT_MTX_NO_NANS(_get_owned_activations());
 			return m_activations;
 		}
 		const realmtxdef_t* get_activations_storage()const noexcept { return &m_activations; }
diff --git a/nntl/layer/_activation_wrapper.h b/nntl/layer/_activation_wrapper.h
index 27cc14c..efef2d9 100644
--- a/nntl/layer/_activation_wrapper.h
+++ b/nntl/layer/_activation_wrapper.h
@@ -134,11 +134,11 @@ namespace nntl {
 
 			template<typename iMathT>
 			void _activation_fprop(iMathT& iM)noexcept {
-				NNTL_ASSERT_MTX_NO_NANS(m_activations);
+				NNTL_ASSERT_MTX_NO_NANS(_get_owned_activations());
 
 				if (!get_self().bIgnoreActivation()) {
 					get_self().get_activation_obj().f(m_activations, iM);
-					NNTL_ASSERT_MTX_NO_NANS(m_activations);
+					NNTL_ASSERT_MTX_NO_NANS(_get_owned_activations());
 				}
 			}
 
diff --git a/nntl/layer/fully_connected.h b/nntl/layer/fully_connected.h
index 2d17d6d..9f0287f 100644
--- a/nntl/layer/fully_connected.h
+++ b/nntl/layer/fully_connected.h
@@ -419,7 +419,7 @@ namespace nntl {
 
 			NNTL_ASSERT_MTX_NO_NANS(dLdA);
 			NNTL_ASSERT_MTX_NO_NANS(prevAct);
-			NNTL_ASSERT_MTX_NO_NANS(m_activations);
+			NNTL_ASSERT_MTX_NO_NANS(_get_owned_activations());
 
 			dLdA.assert_storage_does_not_intersect(dLdAPrev);
 			NNTL_ASSERT(prevAct.emulatesBiases() && (is_activations_shared() || bActivationForOutput != m_activations.emulatesBiases()));
-- 
2.43.0


From 78f3bfd848d90b75939f0e5bea372134fbfe9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:56 +0000
Subject: [PATCH 27/62] fix: nnet::train() must treat NaN training loss as a
 divergence

---
 nntl/nnet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 8987a72..85664d4 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -649,7 +649,8 @@ namespace nntl {
 						} else {
 							// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 							const auto trainLoss = _report_training_progress(epochIdx, td, periodTime, opts.observer(), maxFPropSize);
-							if (bCheckForDivergence && trainLoss >= opts.divergenceCheckThreshold())
+							//the negated form is to treat NaN loss value as a divergence too
+							if (bCheckForDivergence && !(trainLoss < opts.divergenceCheckThreshold()))
 								return _set_last_error(ErrorCode::NNDiverged);
 						}
 					}
-- 
2.43.0


From d893835ae7fbd0ca508b46692d690ac482861225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:40 +0000
Subject: [PATCH 28/62] fix: the stdcout training observers must be able to
 report loss values of a diverged nnet instead of overflowing the report
 buffer

---
 nntl/training_observer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/training_observer.h b/nntl/training_observer.h
index 12f81ea..7c9c13e 100644
--- a/nntl/training_observer.h
+++ b/nntl/training_observer.h
@@ -147,7 +147,7 @@ namespace nntl {
 
 		void on_training_fragment_end(const numel_cnt_t epochEnded, const real_t trainLoss, const real_t testLoss, const nanoseconds& elapsedSincePrevFragment)noexcept {
 			static constexpr char* szReportFmt = "% 3zd/%-3zd %3.1fs trL=%8.5f, vL=%8.5f";
-			static constexpr unsigned uBufSize = 128;
+			static constexpr unsigned uBufSize = 1024;//must have a room for any possible loss value, including ones of a diverged nnet
 			
 			char szRep[uBufSize];
 			const real_t secs = real_t(elapsedSincePrevFragment.count()) / real_t(1e9);
@@ -253,7 +253,7 @@ namespace nntl {
 				NNTL_ASSERT(m_curDataSetId > 1 && m_classifRes.size() > m_curDataSetId && m_classifRes.size() > 2);
 				//outputting dataset stats here
 				static constexpr char* szReportFmt = "%s: Loss=%05.3f, Err=%.2f%% (%zd)";
-				static constexpr unsigned uBufSize = 128;
+				static constexpr unsigned uBufSize = 1024;//must have a room for any possible loss value, including ones of a diverged nnet
 
 				char szRep[uBufSize], dsName[LongestDatasetNameWNull];
 				m_dsNaming(m_curDataSetId, dsName, LongestDatasetNameWNull);
@@ -281,7 +281,7 @@ namespace nntl {
 
 		void on_training_fragment_end(const numel_cnt_t epochEnded, const real_t trainLoss, const real_t testLoss, const nanoseconds& elapsedSincePrevFragment)noexcept {
 			static constexpr char* szReportFmt = "% 3zd/%-3zd %3.1fs trL=%05.3f, trErr=%.2f%% (%zd), vL=%05.3f, vErr=%.2f%% (%zd)";
-			static constexpr unsigned uBufSize = 128;
+			static constexpr unsigned uBufSize = 1024;//must have a room for any possible loss value, including ones of a diverged nnet
 			
 			m_lastTrainErr = trainLoss;
 			m_lastTestErr = testLoss;
-- 
2.43.0


From b034799aa9b4332632e5fbf2f8af43fa01358fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 29/62] fix: resize the dropout mask on every batch size change
 of training, dropout may be enabled later

---
 nntl/dropout/dropout.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/dropout/dropout.h b/nntl/dropout/dropout.h
index 4f5b758..d1d230b 100644
--- a/nntl/dropout/dropout.h
+++ b/nntl/dropout/dropout.h
@@ -107,7 +107,7 @@ namespace nntl {
 
 			template<typename CommonDataT>
 			void _dropout_on_batch_size_change(const CommonDataT& CD, const vec_len_t outgBS)noexcept {
-				if (CD.is_training_mode() && bDropout()) {
+				if (CD.is_training_mode()) {//not checking bDropout(), it may be turned on before the batch size changes again
 					NNTL_ASSERT(!m_dropoutMask.empty());
 					m_dropoutMask.deform_rows(outgBS);
 
-- 
2.43.0


From 3e84ef7ff22bdfcfccaedd01560005125ac6b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:44 +0000
Subject: [PATCH 30/62] fix: rng_helper::normal_vector() must use the requested
 standard deviation instead of the vector's length

---
 nntl/interface/_i_rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index e453a25..03e4275 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -235,9 +235,9 @@ namespace rng {
 		//////////////////////////////////////////////////////////////////////////
 		//////////////////////////////////////////////////////////////////////////
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-			::std::normal_distribution<real_t> distr(m,n);
+			::std::normal_distribution<real_t> distr(m,st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
-				ptr[i] = distr(*this);
+				ptr[i] = distr(get_self());
 			}
 		}
 		void normal_matrix(realmtx_t& A, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-- 
2.43.0


From e1a23e0c30ade54fabfe6b9ebb05e3fa14c7560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:44 +0000
Subject: [PATCH 31/62] fix: CStd must report the actual range of gen_int() by
 min()/max()

---
 nntl/interface/rng/cstd.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nntl/interface/rng/cstd.h b/nntl/interface/rng/cstd.h
index 53825d0..7aa24ee 100644
--- a/nntl/interface/rng/cstd.h
+++ b/nntl/interface/rng/cstd.h
@@ -75,6 +75,11 @@ namespace rng {
 		}
 		//int_4_random_shuffle_t operator()(int_4_random_shuffle_t lessThan)noexcept { return gen_i(lessThan); }
 
+#ifndef _CRT_RAND_S
+		//gen_int() returns only values from [0,RAND_MAX]
+		static constexpr int_4_distribution_t min() noexcept { return 0; }
+		static constexpr int_4_distribution_t max() noexcept { return RAND_MAX; }
+#endif
 		static int_4_distribution_t gen_int()noexcept { return static_cast<int_4_distribution_t>(_rand()); }
 
 		//////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d2e2b273701e97fc0b5297dd4f2081eb337349b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:44 +0000
Subject: [PATCH 32/62] fix: DataBuffer must not give away a completely
 claimed, but still empty buffer for a second time

---
 nntl/utils/data_buffer.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nntl/utils/data_buffer.h b/nntl/utils/data_buffer.h
index 34e19e9..9b831d1 100644
--- a/nntl/utils/data_buffer.h
+++ b/nntl/utils/data_buffer.h
@@ -186,6 +186,7 @@ namespace utils {
 		size_t m_afterLastValidIdx{ 0 }; //last initialized element+1, so for a full container it is either 
 										 // equals to m_curIdx if m_curIdx!=0, or equals to m_total. Modifiable only by a one of bgthreads
 		size_t m_afterLastClaimedIdx{ 0 };//last claimed by bgthread element+1. zero means uninitialized
+		size_t m_claimedCnt{ 0 };//how many elements were claimed by bgthreads, but not yet generated
 		bool m_bEmpty{ true };
 
 	public:
@@ -294,7 +295,7 @@ namespace utils {
 			NNTL_ASSERT(bStateOK());
 
 			size_t r;
-			if (!m_bEmpty && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total))) {
+			if (m_claimedCnt >= m_total || (!m_bEmpty && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total)))) {
 				//the buffer is either already full or will been generated to its full condition soon. Nothing should be done.
 				r = 0;
 			} else {
@@ -342,7 +343,8 @@ namespace utils {
 					m_afterLastClaimedIdx += r;
 				}
 			}
-			NNTL_ASSERT(r <= n);
+			m_claimedCnt += r;
+			NNTL_ASSERT(r <= n && m_claimedCnt <= m_total);
 			NNTL_ASSERT(m_afterLastClaimedIdx > 0);
 			NNTL_ASSERT(bStateOK());
 			//m_bufMutex.unlock();
@@ -359,7 +361,8 @@ namespace utils {
 
 			NNTL_ASSERT(bStateOK());
 			//NNTL_ASSERT(!m_afterLastValidIdx || m_curIdx != m_afterLastValidIdx);
-			NNTL_ASSERT(m_afterLastValidIdx != m_afterLastClaimedIdx);
+			NNTL_ASSERT(m_claimedCnt >= n);
+			m_claimedCnt -= n;
 
 			//deciding where to put the data
 			if (m_afterLastValidIdx < m_afterLastClaimedIdx) {
-- 
2.43.0


From ebca5ea464ae9b7eb602ea207ddb5361a2e82636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:45 +0000
Subject: [PATCH 33/62] fix: AFRand_as::init_rng() must report a failure to
 allocate its buffers

---
 nntl/interface/rng/afrand_as.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/rng/afrand_as.h b/nntl/interface/rng/afrand_as.h
index 64bd915..6aa7ded 100644
--- a/nntl/interface/rng/afrand_as.h
+++ b/nntl/interface/rng/afrand_as.h
@@ -496,9 +496,12 @@ namespace rng {
 		}
 
 		bool init_rng()noexcept { 
-			const bool b = _base_class_t::init_rng();
-			if (b && !asynch_rng_t::init_rng()) _base_class_t::deinit_rng();
-			return b;
+			if (!_base_class_t::init_rng()) return false;
+			if (!asynch_rng_t::init_rng()) {
+				_base_class_t::deinit_rng();
+				return false;
+			}
+			return true;
 		}
 		void deinit_rng()noexcept {
 			_base_class_t::deinit_rng();
-- 
2.43.0


From e2b62833f4a2a854c852621d4a0aad0da711f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:06 +0000
Subject: [PATCH 34/62] fix: whole matrix normalization must not pass the
 measured mean as an offset when only the scale has to be changed

---
 nntl/train_data/_td_norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/train_data/_td_norm.h b/nntl/train_data/_td_norm.h
index 1747962..9240bb8 100644
--- a/nntl/train_data/_td_norm.h
+++ b/nntl/train_data/_td_norm.h
@@ -155,7 +155,7 @@ namespace nntl {
 					if (bCentral) {
 						centralVal = (m_Setts.targetCentral - centralVal)*scaleVal;
 						get_self()._upd_ofs(centralVal);
-					}
+					} else centralVal = statsdata_t(0.);
 					
 					get_self()._do_normalize_whole(indstat_t(scaleVal, centralVal, bScale, bCentral));
 				}
-- 
2.43.0


From dc2e89ecfe3168b0d072af74b0663bd550bf7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:49 +0000
Subject: [PATCH 35/62] fix: gradcheck() must not restore a zero batch size of
 a network that has processed nothing yet

---
 nntl/nnet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 85664d4..b35e6b0 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -772,7 +772,8 @@ namespace nntl {
 				m_nn.get_iInspect().gc_deinit();
 
 				m_nn.m_bCalcFullLossValue = m__bOrigCalcFullLossValue;
-				if (m_nn.get_common_data().set_mode_and_batch_size(m__bOrigInTraining, m__origBatchSize))
+				//zero batch size means that nothing had been processed yet and therefore there's nothing to restore
+				if (m__origBatchSize > 0 && m_nn.get_common_data().set_mode_and_batch_size(m__bOrigInTraining, m__origBatchSize))
 					m_nn.m_Layers.on_batch_size_change(m__origBatchSize);
 				m_nn._unblockLearning();
 			}
-- 
2.43.0


From b44042e55abca8da7b89e1345842715bfa71dd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:49 +0000
Subject: [PATCH 36/62] fix: gradcheck() must have a storage for batches when
 only one of its two batch sizes equals the data size

---
 nntl/nnet.h             | 5 ++++-
 nntl/utils/dataHolder.h | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index b35e6b0..5b6cfa1 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -795,7 +795,10 @@ namespace nntl {
 
 			bool performCheck(const vec_len_t batchSize, const realmtx_t& data_x, const realmtx_t& data_y)noexcept {
 				const vec_len_t biggestBatch = ::std::max(batchSize, m_ngcSetts.onlineBatchSize);
-				m_data.init(biggestBatch == data_x.batch_size() ? 0 : biggestBatch, data_x, &data_y);
+				//a full batch needs no storage, however if the other mode uses a smaller batch, it does need one
+				const vec_len_t smallestBatch = ::std::min(batchSize, m_ngcSetts.onlineBatchSize);
+				m_data.init(smallestBatch == data_x.batch_size() ? 0 : (biggestBatch == data_x.batch_size() ? smallestBatch : biggestBatch)
+					, data_x, &data_y);
 				
 				bool bRet = false;
 				NNTL_ASSERT(m_ngcSetts.onlineBatchSize > 0);
diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 5c7750f..6e8ccbe 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -165,7 +165,8 @@ namespace utils {
 		template<typename iRngT, typename iMathT>
 		void nextBatch(iRngT& iR, iMathT& iM)noexcept {
 			if (isFullBatch()) {
-				//nothing to do here
+				//nothing to do here, just every row belongs to the current batch
+				m_next = m_rowsIdxs.cend();
 			} else {
 				NNTL_ASSERT(m_rowsIdxs.size());
 				if (m_next > m_rowsIdxs.cend() - curBatchSize()) {
-- 
2.43.0


From b12ea85dd2a0cacb445714270774e0c025c1231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:49 +0000
Subject: [PATCH 37/62] fix: gradcheck() must not accept a gradient that is not
 a number

---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 5b6cfa1..87ff16e 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -1108,7 +1108,7 @@ namespace nntl {
 					const real_t relErr = ::std::abs(dLan - dLnum) / ::std::max(::std::abs(dLan), ::std::abs(dLnum));
 					NNTL_ASSERT(!::std::isnan(relErr) && !::std::isinf(relErr));
 
-					if (relErr > *warnThrsh) {
+					if (!(relErr <= *warnThrsh)) {//NaN must not pass the check
 						if (relErr < *failThrsh) {
 							char _s[128];
 							sprintf_s(_s, "Relative error = %g (thrsh %g). Probably not an error.", relErr, *warnThrsh);
-- 
2.43.0


From cee738a7ba8922549c7f76be57003cf7b744b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:49 +0000
Subject: [PATCH 38/62] fix: the GradCheck inspector must stop checking when
 the gradient check has finished

---
 nntl/interface/inspectors/gradcheck.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/inspectors/gradcheck.h b/nntl/interface/inspectors/gradcheck.h
index 77b0e6a..a9a001a 100644
--- a/nntl/interface/inspectors/gradcheck.h
+++ b/nntl/interface/inspectors/gradcheck.h
@@ -93,7 +93,7 @@ namespace inspector {
 			m_stepSize = ss;
 			m_pChangedEl = nullptr;
 		}
-		void gc_deinit()noexcept{ m_pChangedEl = nullptr; }
+		void gc_deinit()noexcept{ gc_reset(); }
 
 		const auto gc_getCurParamsGroup()const noexcept {
 			return m_checkParamsGroup;
-- 
2.43.0


From 5413f02565e6e25c674831003d84bdaa53b64174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 39/62] fix: binfile must refuse field sizes that don't fit
 into a matrix instead of wrapping them

---
 nntl/_supp/io/binfile.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index cb1ed54..af859cf 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -31,6 +31,8 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #pragma once
 
+#include <limits>
+
 #include "../../errors.h"
 #include "../../train_data.h"
 #include "../../utils/scope_exit.h"
@@ -356,7 +358,13 @@ namespace nntl_supp {
 			const auto fieldDataType = fe.bDataType;
 			const auto bSameTypes = bin_file::correct_data_type<T_>(fieldDataType);
 
-			if (fe.dwRows <= 0 || fe.dwCols <= 0) return _set_last_error(ErrorCode::InvalidDataSize);
+			//both dimensions and the total size in bytes (including a possible bias column) must be representable
+			constexpr bin_file::DWORD maxDim = static_cast<bin_file::DWORD>(::std::numeric_limits<vec_len_t>::max()) - 1;
+			constexpr uint64_t maxNumel = static_cast<uint64_t>(::std::numeric_limits<ptrdiff_t>::max())
+				/ (sizeof(T_) > sizeof(double) ? sizeof(T_) : sizeof(double));
+			if (fe.dwRows <= 0 || fe.dwCols <= 0 || fe.dwRows > maxDim || fe.dwCols > maxDim
+				|| static_cast<uint64_t>(fe.dwRows)*(static_cast<uint64_t>(fe.dwCols) + 1) > maxNumel)
+				return _set_last_error(ErrorCode::InvalidDataSize);
 
 			fe.bDataType = 0;
 			if (pTdFieldId) {
-- 
2.43.0


From 8ca9d6da46c426cb62d154c93900f7dac17bbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 40/62] fix: binfile leaked the conversion buffer when the data
 was truncated

---
 nntl/_supp/io/binfile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index af859cf..3cf2101 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -401,8 +401,10 @@ namespace nntl_supp {
 
 #pragma warning(disable:28020)
 			//MSVC SAL goes "slightly" mad here
-			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp))
+			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp)) {
+				if (!bSameTypes) free(pReadTo);
 				return _set_last_error(ErrorCode::FailedToReadData);
+			}
 #pragma warning(default:28020)
 
 			if (!bSameTypes) {
-- 
2.43.0


From de68e2e82aa5853a7c0e28172a94943f19420fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 41/62] fix: binfile must not leave an uninitialized matrix
 behind after a failed read

---
 nntl/_supp/io/binfile.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index 3cf2101..8ae99ff 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -392,17 +392,22 @@ namespace nntl_supp {
 					break;
 
 				default:
+					m.clear();
 					return _set_last_error(ErrorCode::UnsupportedIncorrectDataType);
 					break;
 				}
 				pReadTo = malloc(readSize);
-				if (!pReadTo) return _set_last_error(ErrorCode::FailedToAllocateMemoryForDataConvertion);
+				if (!pReadTo) {
+					m.clear();
+					return _set_last_error(ErrorCode::FailedToAllocateMemoryForDataConvertion);
+				}
 			}
 
 #pragma warning(disable:28020)
 			//MSVC SAL goes "slightly" mad here
 			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp)) {
 				if (!bSameTypes) free(pReadTo);
+				m.clear();
 				return _set_last_error(ErrorCode::FailedToReadData);
 			}
 #pragma warning(default:28020)
-- 
2.43.0


From bdd7f93bd628fe0d9701ec531f8ac4948869babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 42/62] fix: binfile must reset the last error after a
 successful read

---
 nntl/_supp/io/binfile.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index 8ae99ff..3f34d3e 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -280,7 +280,7 @@ namespace nntl_supp {
 
 			if (dest.empty()) return _set_last_error(ErrorCode::IncoherentMetaAndContent);
 
-			return ErrorCode::Success;
+			return _set_last_error(ErrorCode::Success);
 		}
 
 		template<typename TX,typename TY>
@@ -310,7 +310,7 @@ namespace nntl_supp {
 				return _set_last_error(ErrorCode::FailedToMakeTDOutOfReadData);
 			}
 
-			return ErrorCode::Success;
+			return _set_last_error(ErrorCode::Success);
 		}
 		template<typename T_>
 		ErrorCode _read_into(FILE* fp, smatrix<T_>& dest, const int totalFieldsCount, const int totalClassCount)noexcept {
@@ -428,7 +428,7 @@ namespace nntl_supp {
 				free(pReadTo);
 			}
 
-			return ErrorCode::Success;
+			return _set_last_error(ErrorCode::Success);
 		}
 	};
 
-- 
2.43.0


From a0ad297b2d7ac07d8355d6b43cb66bccf5329266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 43/62] fix: jsonreader reported an invalid member as an absent
 one

---
 nntl/_supp/io/jsonreader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nntl/_supp/io/jsonreader.h b/nntl/_supp/io/jsonreader.h
index 3ab4373..935a3dc 100644
--- a/nntl/_supp/io/jsonreader.h
+++ b/nntl/_supp/io/jsonreader.h
@@ -203,8 +203,7 @@ namespace nntl_supp {
 
 		template <typename MembersEnumId>
 		const ErrorCode _members2ErrorCode(const ErrorCode b, const MembersEnumId rm)noexcept {
-			NNTL_UNREF(b);
-			const ErrorCode e = static_cast<ErrorCode>((int)ErrorCode::NoTrainX + (int)rm);
+			const ErrorCode e = static_cast<ErrorCode>((int)b + (int)rm);
 			return _set_last_error(e);
 		}
 
-- 
2.43.0


From f17a364ec06c6fc6e80b9706b3204b5a6656c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:32 +0000
Subject: [PATCH 44/62] fix: LPV must not call the inspector via a layer that
 has failed to initialize

---
 nntl/layer/pack_vertical.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nntl/layer/pack_vertical.h b/nntl/layer/pack_vertical.h
index f3c28b1..d37fa17 100644
--- a/nntl/layer/pack_vertical.h
+++ b/nntl/layer/pack_vertical.h
@@ -221,10 +221,12 @@ namespace nntl {
 			}
 
 			//must be called after first inner layer initialization complete - see our get_iInspect() implementation
-			get_iInspect().init_layer(get_layer_idx(), get_layer_name_str(), get_layer_type_id());
+			if (ErrorCode::Success == ec) {
+				get_iInspect().init_layer(get_layer_idx(), get_layer_name_str(), get_layer_type_id());
+				bSuccessfullyInitialized = true;
+			}
 
 			//#TODO need some way to return failedLayerIdx
-			if (ErrorCode::Success == ec) bSuccessfullyInitialized = true;
 			return ec;
 		}
 
-- 
2.43.0


From 3bdf20aa65b3a3685d39d33ba70ae4dfb0f4438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:13 +0000
Subject: [PATCH 45/62] fix: gradcheck must fail when there's no memory for the
 batch instead of using nullptr

---
 nntl/nnet.h             |  6 +++---
 nntl/utils/dataHolder.h | 12 +++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 87ff16e..281012a 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -750,7 +750,7 @@ namespace nntl {
 			nnet& m_nn;
 			const gradcheck_settings<real_t>& m_ngcSetts;
 
-			layer_index_t m_failedLayerIdx;			
+			layer_index_t m_failedLayerIdx{ 0 };
 			_impl::gradcheck_mode m_mode;
 
 			//there's no need to make these objects global besides getting rid of memory reallocations, so let it be
@@ -797,8 +797,8 @@ namespace nntl {
 				const vec_len_t biggestBatch = ::std::max(batchSize, m_ngcSetts.onlineBatchSize);
 				//a full batch needs no storage, however if the other mode uses a smaller batch, it does need one
 				const vec_len_t smallestBatch = ::std::min(batchSize, m_ngcSetts.onlineBatchSize);
-				m_data.init(smallestBatch == data_x.batch_size() ? 0 : (biggestBatch == data_x.batch_size() ? smallestBatch : biggestBatch)
-					, data_x, &data_y);
+				if (!m_data.init(smallestBatch == data_x.batch_size() ? 0 : (biggestBatch == data_x.batch_size() ? smallestBatch : biggestBatch)
+					, data_x, &data_y)) return false;
 				
 				bool bRet = false;
 				NNTL_ASSERT(m_ngcSetts.onlineBatchSize > 0);
diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 6e8ccbe..f2f06a0 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -94,7 +94,8 @@ namespace utils {
 
 		//If a full-batch is the only possible batchsize, then pass 0 to maxBatchSize. Else pass actual maxBatchSize
 		// that strictly less than data_x.rows(). Full batch mode will still be possible in that case, however it'll be optimized
-		void init(const vec_len_t maxBatchSize, const realmtx_t& data_x, const realmtx_t* pData_y = nullptr)noexcept {
+		// Returns false (and the object is left deinitialized) if there's not enough memory for a batch
+		bool init(const vec_len_t maxBatchSize, const realmtx_t& data_x, const realmtx_t* pData_y = nullptr)noexcept {
 			NNTL_ASSERT(data_x.bBatchInColumn() && (!pData_y || pData_y->bBatchInColumn()));
 			NNTL_ASSERT(!maxBatchSize || maxBatchSize < data_x.rows());//see the comment above on the maxBatchSize
 			NNTL_ASSERT(!pData_y || data_x.rows() == pData_y->rows());
@@ -108,8 +109,12 @@ namespace utils {
 
 			if (maxBatchSize) {
 				NNTL_ASSERT(maxBatchSize < data_x.rows());
-				m_batchX.resize(maxBatchSize, data_x.cols_no_bias());
-				if (pData_y) m_batchY.resize(maxBatchSize, pData_y->cols());
+				if (!m_batchX.resize(maxBatchSize, data_x.cols_no_bias())
+					|| (pData_y && !m_batchY.resize(maxBatchSize, pData_y->cols())))
+				{
+					deinit();
+					return false;
+				}
 			}
 
 			prepareToBatchSize(maxBatchSize ? maxBatchSize : data_x.rows());
@@ -117,6 +122,7 @@ namespace utils {
 			m_rowsIdxs.resize(data_x.rows());
 			::std::iota(m_rowsIdxs.begin(), m_rowsIdxs.end(), 0);
 			m_next = m_rowsIdxs.cend();
+			return true;
 		}
 
 		template<bool bRecursive = false>
-- 
2.43.0


From e156c4093512b9f76ddef66ee588ad29d8c7a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:37 +0000
Subject: [PATCH 46/62] fix: init4fixedBatchFprop() must store the error of a
 failed training data init as the last error

---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 281012a..d7da469 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -702,7 +702,7 @@ namespace nntl {
 			auto& iM = get_iMath();
 			if (!td.is_initialized4inference(fpropBatchSize)) {
 				const auto ec = td.init4inference(iM, fpropBatchSize);
-				if (ErrorCode::Success != ec) return ec;
+				if (ErrorCode::Success != ec) return _set_last_error(ec);
 			}
 
 			const auto ec = init4fixedBatchFprop(fpropBatchSize);
-- 
2.43.0


From 26d0fcb5555ea20578fd7bb0ab2a3a364d02068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:37 +0000
Subject: [PATCH 47/62] fix: failed allocation of the temporary storage of nnet
 must be reported instead of terminating

---
 nntl/nnet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index d7da469..341e594 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -411,7 +411,11 @@ namespace nntl {
 			const numel_cnt_t totalTempMemSize = _totalTrainingMemSize(bMiniBatch, batchSize);
 			//m_pTmpStor.reset(new(::std::nothrow)real_t[totalTempMemSize]);
 			//if (nullptr == m_pTmpStor.get()) return ErrorCode::CantAllocateMemoryForTempData;
-			m_pTmpStor.resize(totalTempMemSize);
+			try {
+				m_pTmpStor.resize(totalTempMemSize);
+			} catch (const ::std::exception&) {
+				return ErrorCode::CantAllocateMemoryForTempData;
+			}
 
 			const auto _memUsed = _processTmpStor(bMiniBatch, batchSize);
 			NNTL_ASSERT(totalTempMemSize == _memUsed);
-- 
2.43.0


From a516ecc57f8de1c3fb3793402958890632f48ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:37 +0000
Subject: [PATCH 48/62] fix: iMath::init() must report a failed allocation
 instead of terminating

---
 nntl/interface/math/smath.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nntl/interface/math/smath.h b/nntl/interface/math/smath.h
index b051392..deb1de9 100644
--- a/nntl/interface/math/smath.h
+++ b/nntl/interface/math/smath.h
@@ -230,8 +230,11 @@ namespace math {
 		// #note that init() as well as preinit() MUST allow subsequent calls without doing deinit() first.
 		bool init()noexcept {
 			if (conform_sign(m_threadTempRawStorage.size()) < m_minTempStorageSize) {
-				//TODO: memory allocation exception handling here!
-				m_threadTempRawStorage.resize(m_minTempStorageSize);
+				try {
+					m_threadTempRawStorage.resize(m_minTempStorageSize);
+				} catch (const ::std::exception&) {
+					return false;
+				}
 			}
 			NNTL_ASSERT(m_curStorElementsAllocated == 0 || !"WTF?! Internal storage MUST NOT be in use at this moment!");
 			m_curStorElementsAllocated = 0;
-- 
2.43.0


From ef122b26d8104f1a8dd05761bbc2ca3ba39a8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:24 +0000
Subject: [PATCH 49/62] fix: evaluator must not go on after a failed
 initialization of the iMath's storage

---
 nntl/nnet_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet_evaluator.h b/nntl/nnet_evaluator.h
index cf64d59..34d85d9 100644
--- a/nntl/nnet_evaluator.h
+++ b/nntl/nnet_evaluator.h
@@ -246,7 +246,7 @@ namespace nntl {
 
 			auto& iM = cd.iMath();
 			iM.preinit(iM.mrwIdxsOfMax_needTempMem<real_t>(biggestOutpBatch));
-			iM.init();
+			if (!iM.init()) return false;
 
 			try {
 				m_ydataClassIdxs[train_set_id].resize(trainSamples);
-- 
2.43.0


From fd96cfc0d7ce4700496e24da37c3464350985c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:13 +0000
Subject: [PATCH 50/62] fix: failed allocation of dataHolder's indexes must be
 reported instead of terminating

---
 nntl/utils/dataHolder.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index f2f06a0..b5cf0ca 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -119,7 +119,12 @@ namespace utils {
 
 			prepareToBatchSize(maxBatchSize ? maxBatchSize : data_x.rows());
 
-			m_rowsIdxs.resize(data_x.rows());
+			try {
+				m_rowsIdxs.resize(data_x.rows());
+			} catch (const ::std::exception&) {
+				deinit();
+				return false;
+			}
 			::std::iota(m_rowsIdxs.begin(), m_rowsIdxs.end(), 0);
 			m_next = m_rowsIdxs.cend();
 			return true;
-- 
2.43.0


From e87be51f224a56b646101b448ee8c9c32d6b1c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 51/62] fix: const getters L1()/L2() of loss addendums must
 compile

---
 nntl/grad_works/loss_addendums.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/grad_works/loss_addendums.h b/nntl/grad_works/loss_addendums.h
index f35b8a2..98f558e 100644
--- a/nntl/grad_works/loss_addendums.h
+++ b/nntl/grad_works/loss_addendums.h
@@ -267,7 +267,7 @@ namespace GW { //GW namespace is for grad_works mixins and other stuff, that hel
 		}
 		template<bool b = bL1Available>
 		//::std::enable_if_t<b, real_t> L1()const noexcept { return useAddendum<LA_L1_t>() ? addendum<LA_L1_t>().scale() : real_t(0.); }
-		::std::enable_if_t<b, real_t> L1()const noexcept { return addendum<LA_L1_t>().scale(); }
+		::std::enable_if_t<b, real_t> L1()const noexcept { return ::std::get<LA_L1_t>(m_addendumsTuple).scale(); }
 
 		template<bool b = bL2Available>
 		::std::enable_if_t<b, self_ref_t> L2(const real_t& l2, const bool& bIgnoreBiasWeights = defRegularizersIgnoresBiasWeights)noexcept {
@@ -279,7 +279,7 @@ namespace GW { //GW namespace is for grad_works mixins and other stuff, that hel
 		}
 		template<bool b = bL2Available>
 		//::std::enable_if_t<b, real_t> L2()const noexcept { return useAddendum<LA_L2_t>() ? addendum<LA_L2_t>().scale() : real_t(0.); }
-		::std::enable_if_t<b, real_t> L2()const noexcept { return addendum<LA_L2_t>().scale(); }
+		::std::enable_if_t<b, real_t> L2()const noexcept { return ::std::get<LA_L2_t>(m_addendumsTuple).scale(); }
 
 	};
 
-- 
2.43.0


From 7eae99139108f0e20e6435b30491d0f0eb8b6bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 52/62] fix: applyILRToMomentum() must not leave the previous
 gradient of ILR uninitialized

---
 nntl/grad_works/ILR.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nntl/grad_works/ILR.h b/nntl/grad_works/ILR.h
index 982ed82..bb81af0 100644
--- a/nntl/grad_works/ILR.h
+++ b/nntl/grad_works/ILR.h
@@ -188,10 +188,14 @@ namespace GW { //GW namespace is for grad_works mixins and other stuff, that hel
 		self_ref_t applyILRToMomentum(const bool b)noexcept {
 			set_opt(f_ApplyILRToMomentum, b);
 			if (!get_self().use_momentums() | !b) {
-				if (m_ILRGain.rows() > 0 && m_ILRGain.cols() > 0 && !m_prevdLdW.resize(m_ILRGain)) {
-					//#TODO: correct error return
-					STDCOUTL("Failed to resize m_prevdLdW");
-					abort();
+				if (m_ILRGain.rows() > 0 && m_ILRGain.cols() > 0 && m_prevdLdW.size() != m_ILRGain.size()) {
+					if (!m_prevdLdW.resize(m_ILRGain)) {
+						//#TODO: correct error return
+						STDCOUTL("Failed to resize m_prevdLdW");
+						abort();
+					}
+					//there's no previous gradient yet, so the next ILR_apply() must not find any (dis)agreement with it
+					m_prevdLdW.zeros();
 				}
 			}
 			return get_self();
-- 
2.43.0


From 43bd1fbc7b19823ce51b51defb98f740ceda04ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 53/62] fix: grad_works must reserve memory for LR dropout that
 is turned on with Nesterov momentum at run time

---
 nntl/grad_works/grad_works.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nntl/grad_works/grad_works.h b/nntl/grad_works/grad_works.h
index 59cdbdd..ccca90d 100644
--- a/nntl/grad_works/grad_works.h
+++ b/nntl/grad_works/grad_works.h
@@ -308,9 +308,7 @@ namespace nntl {
 			//Currently also see implementation of max_norm2 enforcer mCheck_normalize_rows()
 			get_iMath().preinit(
 				//1 for LRDropout & +1 if NM is also used (could be turned on/off @runtime safely)
-				::std::max({math::smatrix_td::sNumel(weightsSize)*(1 + (
-					use_nesterov_momentum() && bApplyLRDropoutToNesterovMomentum() && bLRDropout()
-					))
+				::std::max({math::smatrix_td::sNumel(weightsSize)*(1 + use_momentums())
 					, get_iMath().mCheck_normalize_rows_needTempMem(weights)//for mCheck_normalize_rows_mt
 			})
 				);
-- 
2.43.0


From 1e676567f493dc9ea623912dab8facef74cfaae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 54/62] fix: train() must not drop loss addendums that are
 turned on after the initialization

---
 nntl/nnet.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 341e594..eac58d1 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -572,8 +572,6 @@ namespace nntl {
 			auto ec = _init4train(td, maxFPropSize, maxBatchSize, bMiniBatch, maxEpoch, opts.bForceReinitTD());
 			if (ErrorCode::Success != ec) return _set_last_error(ec);
 
-			if (m_bCalcFullLossValue) m_bCalcFullLossValue = m_LMR.bLossAddendumDependsOnWeights || m_LMR.bLossAddendumDependsOnActivations;
-
 			ec = ::std::forward<onNnetInitCbT>(onInitCB)();
 			if (ErrorCode::Success != ec) return _set_last_error(ec);
 
-- 
2.43.0


From 31139491a4ff96870b62cba6913c0a916e52b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 55/62] fix: negative integers of a .mat file were read through
 unsigned pointers

---
 nntl/utils/matlab.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nntl/utils/matlab.h b/nntl/utils/matlab.h
index ac508da..507f458 100644
--- a/nntl/utils/matlab.h
+++ b/nntl/utils/matlab.h
@@ -92,14 +92,20 @@ namespace matlab {
 				d.fill_from_array_no_bias(static_cast<const float*>(pSrc));
 				break;
 			case mxINT64_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int64_t*>(pSrc));
+				break;
 			case mxUINT64_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint64_t*>(pSrc));
 				break;
 			case mxINT32_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int32_t*>(pSrc));
+				break;
 			case mxUINT32_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint32_t*>(pSrc));
 				break;
 			case mxINT8_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int8_t*>(pSrc));
+				break;
 			case mxUINT8_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint8_t*>(pSrc));
 				break;
-- 
2.43.0


From b461381a9861cbc7ef23e781726b2b47ddc377ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 56/62] fix: matfile destroyed the nested struct it was
 updating

---
 nntl/_supp/io/matfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index aa9c73b..f1d4e89 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -195,7 +195,8 @@ namespace nntl_supp {
 				} else {
 					//check whether the old field contains value and free it if needed
 					const auto oldVal = mxGetFieldByNumber(pStruct, 0, fieldNum);
-					if (oldVal) mxDestroyArray(oldVal);
+					//(when a nested struct is being updated, the field contains the very same pA and it must survive)
+					if (oldVal && oldVal != pA) mxDestroyArray(oldVal);
 				}
 				if (ErrorCode::Success == ec) {
 					mxSetFieldByNumber(pStruct, 0, fieldNum, pA);
-- 
2.43.0


From 3e506ae1025fc1310756a69100897475e0629961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 57/62] fix: matfile did not keep the error about an empty
 variable

---
 nntl/_supp/io/matfile.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index f1d4e89..51d2373 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -234,7 +234,11 @@ namespace nntl_supp {
 							//obtaining dimensions
 							r = static_cast<vec_len_t>(mxGetM(ret));
 							c = static_cast<vec_len_t>(mxGetN(ret));
-							if (r <= 0 || c <= 0) ec = ErrorCode::EmptyVariableHasBeenRead;
+							if (r <= 0 || c <= 0) {
+								ec = ErrorCode::EmptyVariableHasBeenRead;
+								if (!bIsField)mxDestroyArray(ret);
+								ret = nullptr;
+							}
 						}else { 
 							ec = ErrorCode::WrongVariableTypeHasBeenRead;
 							if (!bIsField)mxDestroyArray(ret);
-- 
2.43.0


From 6ec4b5122f1a98f0e49f3a9a905f343c553f16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 58/62] fix: matfile leaked the array of a field that could not
 be added

---
 nntl/_supp/io/matfile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index 51d2373..36b2c49 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -201,8 +201,8 @@ namespace nntl_supp {
 				if (ErrorCode::Success == ec) {
 					mxSetFieldByNumber(pStruct, 0, fieldNum, pA);
 					m_curVarName = nullptr;
-				}
-				//we mustn't free pA here, it'll be automatically (?) deleted when the struct will be disposed
+					//we mustn't free pA here, it'll be automatically (?) deleted when the struct will be disposed
+				} else mxDestroyArray(pA);//nobody else owns it
 			} else {
 				if (matPutVariable(m_matFile, m_curVarName, pA)) {
 					ec = ErrorCode::FailedToTransferVariable;
-- 
2.43.0


From 6fdc290f34f85c27a114263ff6e4979509ad93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 59/62] fix: write_weights() reported success though the file
 could not be completed

---
 nntl/nnet.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index eac58d1..d87f166 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -216,6 +216,7 @@ namespace nntl {
 			if (decltype(mf)::ErrorCode::Success == ec) {
 				mf << *this;
 				ec = mf.get_last_error();
+				if (decltype(mf)::ErrorCode::Success == ec) ec = mf.close();//the data may be flushed to the disk only here
 				if (decltype(mf)::ErrorCode::Success == ec) {
 					STDCOUTL(pfx << "Success!");
 					return true;
-- 
2.43.0


From b32b3c5125c82de8ce0b213197281c5aef6e7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 60/62] fix: inspectors forgot the layers when a network was
 trained again without reinitialisation

---
 nntl/nnet.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index d87f166..3025595 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -338,6 +338,15 @@ namespace nntl {
 		}
 
 		//
+		//init_nnet() makes an inspector forget the layers, and they won't announce themselves if they are already initialized
+		void _reinit_inspector(const numel_cnt_t maxEpoch)noexcept {
+			auto& iI = get_iInspect();
+			iI.init_nnet(m_Layers.total_layers(), maxEpoch);
+			m_Layers.for_each_layer([&iI](const auto& l)noexcept {
+				iI.init_layer(l.get_layer_idx(), l.get_layer_name_str(), l.get_layer_type_id());
+			});
+		}
+
 		// biggestFprop - the biggest expected batch size for inferencing/fprop
 		// batchSize - the biggest expected batch size for training/bprop (as well as inferencing/fprop for training also)
 		//		batchSize==0 means that _init is called for use in fprop scenario only
@@ -347,7 +356,7 @@ namespace nntl {
 			NNTL_ASSERT(biggestFprop > 0 && biggestFprop >= batchSize);
 			if (_is_initialized(biggestFprop, batchSize)) {
 				if (!get_iMath().init()) return ErrorCode::CantInitializeIMath;
-				get_iInspect().init_nnet(m_Layers.total_layers(), maxEpoch);
+				_reinit_inspector(maxEpoch);
 				return ErrorCode::Success;
 			}
 
@@ -369,7 +378,7 @@ namespace nntl {
 			if (_is_initialized(maxFPropSize, maxBatchSize)) {
 				//must call get_iMath().init() b/c td.init* could do iM.preinit()
 				if (!get_iMath().init()) return ErrorCode::CantInitializeIMath;
-				get_iInspect().init_nnet(m_Layers.total_layers(), maxEpoch);
+				_reinit_inspector(maxEpoch);
 				return ErrorCode::Success;
 			}
 
-- 
2.43.0


From 0b4b238fd38bab66fc2bc3a1bb5147c77e48369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 61/62] fix: dumper wrote outside of its epochs mask for a
 negative epoch

---
 nntl/interface/inspectors/dumper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/interface/inspectors/dumper.h b/nntl/interface/inspectors/dumper.h
index 749f433..801d560 100644
--- a/nntl/interface/inspectors/dumper.h
+++ b/nntl/interface/inspectors/dumper.h
@@ -58,6 +58,7 @@ namespace nntl {
 
 					m_dumpEpochCond.clear().resize(totalEpochs, false);
 					for (const auto etd : m_epochsToDump) {
+						if (etd < 0) continue;//idx_before_start is not a training epoch, there's no condition for it
 						if (etd < totalEpochs) {
 							m_dumpEpochCond.verbose(etd);
 						} else m_dumpEpochCond.verbose(lastEpochIdx);
-- 
2.43.0


From 417820f0559f19a36aea88209f8deb3dd6818609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 62/62] fix: dumper kept the last epoch of the first session
 for the later ones

---
 nntl/interface/inspectors/dumper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/inspectors/dumper.h b/nntl/interface/inspectors/dumper.h
index 801d560..5b7af59 100644
--- a/nntl/interface/inspectors/dumper.h
+++ b/nntl/interface/inspectors/dumper.h
@@ -54,9 +54,10 @@ namespace nntl {
 				void on_init_nnet(const numel_cnt_t totalEpochs)noexcept {
 					NNTL_ASSERT(totalEpochs > 0);
 					const auto lastEpochIdx = totalEpochs - 1;
-					if (!m_epochsToDump.size()) m_epochsToDump.push_back(lastEpochIdx);
 
 					m_dumpEpochCond.clear().resize(totalEpochs, false);
+					//the default must not be remembered in the list, the next training session may have other number of epochs
+					if (!m_epochsToDump.size()) m_dumpEpochCond.verbose(lastEpochIdx);
 					for (const auto etd : m_epochsToDump) {
 						if (etd < 0) continue;//idx_before_start is not a training epoch, there's no condition for it
 						if (etd < totalEpochs) {
-- 
2.43.0

