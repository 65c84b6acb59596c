// networks under observation: the library's inspector and observer interfaces feed a monitor, which replays every forward
// and backward pass on a long double reference of the same architecture and follows the protocol of the events
#pragma once
#include "mathcommon.h"
#include "nntl/layers.h"
#include "nntl/nnet.h"
using namespace vh;

struct LM {
	int r = 0, c = 0; std::vector<ld> d;
	LM() {} LM(int r_, int c_) : r(r_), c(c_), d(size_t(r_)*c_, 0) {}
	ld& operator()(int i, int j) { return d[size_t(j)*r + i]; } ld operator()(int i, int j)const { return d[size_t(j)*r + i]; }
	LM cols(int o, int n)const { LM m(r, n); std::copy(d.begin() + size_t(o)*r, d.begin() + size_t(o + n)*r, m.d.begin()); return m; }
	LM rows(const std::vector<int>& ix)const { LM m(int(ix.size()), c); for (int j = 0; j < c; ++j) for (size_t i = 0; i < ix.size(); ++i) m(int(i), j) = (*this)(ix[i], j); return m; }
};
template<typename T> LM toLM(const M<T>& m) { LM x(m.rows(), m.cols_no_bias()); for (int j = 0; j < x.c; ++j) for (int i = 0; i < x.r; ++i) x(i, j) = m.get(i, j); return x; }
template<typename T> constexpr ld NTOL = 3000 * EPS<T>;

struct RAct { std::function<ld(ld)> f; std::function<ld(ld, ld)> df;/*(z, a)*/ };
inline RAct r_sigm() { return { [](ld z) { return 1 / (1 + std::exp(-z)); }, [](ld, ld a) { return a * (1 - a); } }; }
inline RAct r_ident() { return { [](ld z) { return z; }, [](ld, ld) { return 1.L; } }; }
inline RAct r_relu(ld k = 0) { return { [k](ld z) { return z > 0 ? z : k * z; }, [k](ld z, ld) { return z > 0 ? 1.L : k; } }; }
inline RAct r_elu() { return { [](ld z) { return z >= 0 ? z : std::expm1(z); }, [](ld z, ld a) { return z >= 0 ? 1.L : a + 1; } }; }
inline RAct r_softsign() { return { [](ld z) { return z / (1 + std::fabs(z)); }, [](ld z, ld) { const ld q = 1 + std::fabs(z); return 1 / (q*q); } }; }
inline RAct r_selu() { const ld al = 1.6732632423543772848170429916717L, la = 1.0507009873554804934193349852946L; return { [=](ld z) { return z > 0 ? la * z : la * al*std::expm1(z); }, [=](ld z, ld a) { return z >= 0 ? la : a + la * al; } }; }

template<typename T> struct Mon;
template<typename T> struct Node {
	int idx = -1; Node* parent = nullptr; bool need = false;// need: a gradient for what lies below is required
	LM X, A, dA, dP; int nf = 0, nb = 0;// observed passes through the layer within the batch
	bool passive = false;// backward pass may be skipped (nothing flows through)
	virtual ~Node() {}
	virtual void pull() {}
	virtual bool tune(R&) { return false; }// change of settings between epochs
	virtual void fwd_(const LM& x) = 0;// sets X and A
	virtual void bwd_(const LM& dA_) = 0;// sets dA and dP
	// penalties on the activations and dropout
	struct Pen { int k;/*0 L1, 1 L2, 2 DeCov*/ bool nz; T s; }; std::vector<Pen> pens; int gateCols = 0; int dk = 0;/*1 dropout, 2 alpha*/ T p = T(1); ld da = 0, db = 0, dd = 0;
	LM Ap, Ad, dOut, mask; std::vector<T> orig, maskT, prevMask; int nd = 0; std::vector<char> zeros;/*where the observed gradient is exactly 0: this decides for the penalties of non-zero gradients*/ bool hasNZ()const { for (auto& q : pens) if (q.nz) return true; return false; } bool lex()const { return pens.size() || dk; }
	virtual void fwd(const LM& x) { fwd_(x); Ap = A; if (mask.r) for (size_t i = 0; i < A.d.size(); ++i) { const ld q = mask.d[i]; A.d[i] = A.d[i] * q + (dk == 2 ? (q == 0 ? dd : db) : 0); } Ad = A; }
	virtual void bwd(const LM& d) {
		dOut = d; if (!lex()) { bwd_(d); return; }
		LM g = d; if (mask.r) for (size_t i = 0; i < g.d.size(); ++i) g.d[i] *= mask.d[i];
		std::vector<char> z(g.d.size()); for (size_t i = 0; i < z.size(); ++i) z[i] = (zeros.size() == z.size() ? bool(zeros[i]) : g.d[i] == 0) || (mask.r && mask.d[i] == 0);
		A = Ap; LM a = A.cols(gateCols, A.c - gateCols); const size_t o = size_t(gateCols)*A.r;
		for (auto& q : pens) if (q.s != 0 && a.r) { const LM e = penGrad(q, a); for (size_t i = 0; i < e.d.size(); ++i) if (!q.nz || !z[o + i]) { g.d[o + i] += q.s*e.d[i]; if (e.d[i] != 0) z[o + i] = 0; } }
		bwd_(g);
	}
	static LM deCov(const LM& a, LM& dm) { dm = a; for (int j = 0; j < a.c; ++j) { ld m = 0; for (int i = 0; i < a.r; ++i) m += a(i, j); m /= a.r; for (int i = 0; i < a.r; ++i) dm(i, j) -= m; } LM C(a.c, a.c); for (int j = 0; j < a.c; ++j) for (int k = 0; k < a.c; ++k) { ld q = 0; for (int i = 0; i < a.r; ++i) q += dm(i, j)*dm(i, k); C(j, k) = q / a.r; } return C; }
	static LM penGrad(const Pen& q, const LM& a) {
		LM e = a; if (q.k == 0) for (auto& x : e.d) x = x > 0 ? 1 : x < 0 ? -1 : 0;
		if (q.k == 2) { LM dm; const LM C = deCov(a, dm); for (int j = 0; j < a.c; ++j) for (int i = 0; i < a.r; ++i) { ld t = 0; for (int k = 0; k < a.c; ++k) if (k != j) t += C(j, k)*dm(i, k); e(i, j) = 2 * t / a.r / (a.c - 1); } }
		return e;
	}
	ld penLoss()const { ld t = 0; if (Ap.r) for (auto& q : pens) if (q.s != 0) { if (q.k < 2) for (auto x : Ap.d) t += q.s*(q.k ? x * x / 2 : std::fabs(x)); else { LM dm; const LM C = deCov(Ap, dm); for (int j = 0; j < C.c; ++j) for (int k = 0; k < j; ++k) t += q.s*C(j, k)*C(j, k) / (C.c - 1); } } return t; }
	virtual void each(const std::function<void(Node*)>& f) { f(this); }
	virtual void bind(Node* p, bool nd) { parent = p; need = nd; }
	virtual void cmpW(Mon<T>&) {}
	virtual nc params()const { return 0; }
	virtual ld addendum()const { return 0; }
	virtual bool rawA()const { return true; }// fprop_end shows the final activations
	virtual const LM* preact()const { return nullptr; } virtual const LM* dz()const { return nullptr; } virtual LM dadz()const { return LM(); } virtual bool clamps()const { return false; }
	virtual const std::vector<T>* weights0()const { return nullptr; }// the weights the pass started with
	virtual const char* kind()const = 0;
};

template<typename T> struct Mon {
	std::vector<Node<T>*> chain; std::map<int, Node<T>*> byIdx; std::vector<Node<T>*> all;
	std::function<ld(const LM& a, const LM& y)> loss;
	std::function<void(const LM& y)> setY;// gives the targets to the output node
	struct Frame { bool F; int idx; int step = 0; bool inner = false; }; std::vector<Frame> st;
	bool active = true;// comparisons are on
	// protocol state
	enum Ph { idle, epoch, batch, fdone, bdone, calc } ph = idle; Ph phCalcBack = idle;
	bool inTrain = false; long long epochIdx = -1, batches = 0, batchIdx = -1; int calcSet = -1; long long nBatchesTotal = 0, nEpochs = 0, nInit = 0, nInitLayers = 0;
	LM lastX, lastY; bool refValid = false, bwdValid = false;
	ld lossSum = 0; nc lossN = 0;
	std::string where() { char b[128]; snprintf(b, sizeof(b), "epoch %lld batch %lld", epochIdx, batchIdx); return b; }

	void setup(std::vector<Node<T>*> c) {
		chain = c; for (size_t i = 0; i < chain.size(); ++i) chain[i]->bind(nullptr, i >= 2);
		for (auto n : chain) n->each([&](Node<T>* q) { all.push_back(q); if (byIdx.count(q->idx)) viol("net.index", "layer index %d is used twice", q->idx); byIdx[q->idx] = q; });
	}
	nc params() { nc s = 0; for (auto n : all) s += n->params(); return s; }
	ld addendum() { ld s = 0; for (auto n : all) s += n->addendum() + n->penLoss(); return s; }
	Node<T>* at(int idx) { auto it = byIdx.find(idx); if (it == byIdx.end()) { viol("insp.layer", "event for an unknown layer %d", idx); return nullptr; } return it->second; }
	bool cmp(const char* key, const char* what, Node<T>* n, const M<T>& g, const LM& e, bool wantBias = false) {
		if (!active) return true;
		if (int(g.rows()) != e.r || int(g.cols_no_bias()) != e.c) { viol(key, "%s of layer %d (%s): shape [%u,%u], expected [%d,%d], %s", what, n->idx, n->kind(), g.rows(), g.cols_no_bias(), e.r, e.c, where().c_str()); return false; }
		for (int j = 0; j < e.c; ++j) for (int i = 0; i < e.r; ++i) if (!(std::fabs((ld)g.get(i, j) - e(i, j)) <= NTOL<T>*(1 + std::fabs(e(i, j))))) {
			viol(key, "%s of layer %d (%s) [%d,%d] at (%d,%d): %.9g, expected %.9g, %s", what, n->idx, n->kind(), e.r, e.c, i, j, (double)g.get(i, j), (double)e(i, j), where().c_str()); return false;
		}
		if (wantBias) { if (!g.emulatesBiases()) { viol(key, "%s of layer %d without biases", what, n->idx); return false; } for (int i = 0; i < e.r; ++i) if (g.get(i, e.c) != T(1)) { viol(key, "%s of layer %d (%s): bias of row %d is %g", what, n->idx, n->kind(), i, (double)g.get(i, e.c)); return false; } }
		ev("net.cells", uint64_t(e.r)*e.c); return true;
	}
	void fwd(const LM& x) {
		for (auto n : all) { n->pull(); n->nf = n->nb = 0; n->X = LM(); n->A = LM(); n->dA = LM(); n->dP = LM(); n->mask = LM(); n->nd = 0; n->zeros.clear(); } lastPop = -1;
		compute(x); ev("net.ref_forward");
	}
	int lastPop = -1;
	void compute(const LM& x) {
		LM cur = x; for (auto n : chain) { n->fwd(cur); cur = n->A; for (auto q : cur.d) if (!(std::fabs(q) < 300) && active) { active = false; ev("net.blown"); } } /*a diverged net: rounding errors dominate*/ lastX = x; refValid = true; bwdValid = false;
	}
	void bwd() { LM cur; for (size_t i = chain.size(); i-- > 1;) { chain[i]->bwd(cur); cur = chain[i]->dP; } bwdValid = true; ev("net.ref_backward"); }
	const LM& out() { return chain.back()->A; }
	void done_pass(bool bTr) {// all layers were passed the right number of times
		if (!refValid) return;
		for (auto n : all) {
			const int want = n->X.r > 0;
			if (n->nf != want) viol("insp.passes", "layer %d (%s) made %d forward passes instead of %d, %s", n->idx, n->kind(), n->nf, want, where().c_str());
			const int wd = bTr && want && n->dk && n->p < 1; if (n->nd != wd) viol("drop.passes", "dropout of layer %d (%s, p %g) was applied %d times instead of %d in %s mode, %s", n->idx, n->kind(), (double)n->p, n->nd, wd, bTr ? "training" : "inference", where().c_str());
			if (bTr) { const int wb = want && n->idx > 0; if (n->nb != wb && !(n->passive && n->nb == 0)) viol("insp.passes", "layer %d (%s) made %d backward passes instead of %d, %s", n->idx, n->kind(), n->nb, wb, where().c_str()); }
		}
	}
};
// --- the inspector
template<typename T> struct MonInsp : inspector::_impl::_base<T> {
	typedef math::smatrix<T> X;
	mutable Mon<T>* m = nullptr; bool act = true; int nOn = 0, nOff = 0;
	bool isInspectorActive()const noexcept { return act; }
	bool turn_on(const bool b = true) noexcept { const bool o = act; act = b; ++(b ? nOn : nOff); return o; }
	void init_nnet(const size_t total, const numel_cnt_t) const noexcept { if (m) { ++m->nInit; if (total != m->all.size()) viol("insp.init_nnet", "%zu layers announced, %zu exist", total, m->all.size()); } }
	template<typename S> void init_layer(const layer_index_t l, S&&, const layer_type_id_t)const noexcept { if (m) { m->at(l); ++m->nInitLayers; ev("insp.init_layer"); } }
	void train_epochBegin(const numel_cnt_t e, const numel_cnt_t nb)const noexcept {
		if (!m) return; if (m->ph != Mon<T>::idle || e != m->epochIdx + 1 || nb < 1 || m->st.size()) viol("insp.epoch", "epoch %lld (%lld batches) begins after epoch %lld in state %d", (long long)e, (long long)nb, m->epochIdx, m->ph);
		m->ph = Mon<T>::epoch; m->epochIdx = e; m->batches = nb; m->batchIdx = -1; ++m->nEpochs; ev("insp.epochs");
	}
	void train_epochEnd()const noexcept { if (!m) return; if (m->ph != Mon<T>::epoch || m->batchIdx + 1 != m->batches || m->st.size()) viol("insp.epoch", "epoch %lld ends after %lld of %lld batches in state %d", m->epochIdx, m->batchIdx + 1, m->batches, m->ph); m->ph = Mon<T>::idle; }
	void train_batchBegin(const numel_cnt_t b)const noexcept { if (!m) return; if (m->ph != Mon<T>::epoch || b != m->batchIdx + 1 || b >= m->batches || m->st.size()) viol("insp.batch", "batch %lld begins after batch %lld of %lld in state %d", (long long)b, m->batchIdx, m->batches, m->ph); m->ph = Mon<T>::batch; m->batchIdx = b; m->refValid = m->bwdValid = false; }
	void train_batchEnd()const noexcept {
		if (!m) return; if (m->ph != Mon<T>::bdone || m->st.size()) viol("insp.batch", "batch %lld ends in state %d with %zu open frames", m->batchIdx, m->ph, m->st.size());
		m->ph = Mon<T>::epoch; ++m->nBatchesTotal; m->done_pass(true);
		if (m->bwdValid) for (auto n : m->all) n->cmpW(*m);
		ev("insp.batches");
	}
	void train_preFprop(const X& x)const noexcept { if (!m) return; if (m->ph != Mon<T>::batch || m->st.size()) viol("insp.batch", "train_preFprop in state %d", m->ph); m->lastX = toLM(x); }
	template<typename YT> void train_preBprop(const math::smatrix<YT>& y)const noexcept {
		if (!m) return; if (m->ph != Mon<T>::fdone || m->st.size()) viol("insp.batch", "train_preBprop in state %d", m->ph);
		m->lastY = toLM<YT>(y); if (m->refValid) { m->setY(m->lastY); m->bwd(); }
	}
	void train_preCalcError(const data_set_id_t ds)const noexcept { if (!m) return; if ((m->ph != Mon<T>::idle && m->ph != Mon<T>::epoch) || m->st.size()) viol("insp.calc", "train_preCalcError in state %d", m->ph); m->phCalcBack = m->ph; m->ph = Mon<T>::calc; m->calcSet = int(ds); }
	void train_postCalcError()const noexcept { if (!m) return; if (m->ph != Mon<T>::calc || m->st.size()) viol("insp.calc", "train_postCalcError in state %d", m->ph); m->ph = m->phCalcBack; m->calcSet = -1; ev("insp.calcs"); }

	void fprop_begin(const layer_index_t l, const X& prev, const bool tr) const noexcept {
		if (!m) return;
		if (l == 0) { if (m->st.size()) viol("insp.nest", "the input layer runs inside of another one"); m->fwd(toLM(prev)); }
		auto n = m->at(l); m->st.push_back({ true, int(l) }); if (!n) return;
		check_parent(n, true);
		if (tr != (m->ph == Mon<T>::batch || m->ph == Mon<T>::fdone)) viol("insp.mode", "layer %u runs in %s mode, %s", l, tr ? "training" : "inference", m->where().c_str());
		if (!m->refValid) return;
		m->cmp("net.fprop_in", "input", n, prev, n->X, n->idx == 0 || n->parent == nullptr); ++n->nf;
	}
	void check_parent(Node<T>* n, bool F)const noexcept {
		const auto& s = m->st; const int p = n->parent ? n->parent->idx : -1, g = s.size() > 1 ? s[s.size() - 2].idx : -1;
		if (g != p || (s.size() > 1 && s[s.size() - 2].F != F)) viol("insp.nest", "layer %d (%s) runs inside of %d, its pack is %d", n->idx, n->kind(), g, p);
	}
	void fprop_end(const X& A) const noexcept {
		if (!m) return;
		if (m->st.empty() || !m->st.back().F) { viol("insp.nest", "fprop_end without fprop_begin"); return; }
		const int l = m->st.back().idx, sp = m->st.back().step; m->st.pop_back(); m->lastPop = l; auto n = m->at(l); if (!n || !m->refValid) return;
		if (sp != 3) viol("insp.steps", "layer %d (%s) ends its forward pass at step %d", l, n->kind(), sp);
		if (n->rawA()) m->cmp("net.fprop_out", "activations", n, A, n->Ap);
		if (l == m->chain.back()->idx) { if (m->ph == Mon<T>::batch) m->ph = Mon<T>::fdone; else m->done_pass(false); }
	}
	template<typename YT> void bprop_begin(const layer_index_t l, const math::smatrix<YT>& dLdA) const noexcept {
		if (!m) return; if (m->ph != Mon<T>::fdone) viol("insp.nest", "bprop_begin of layer %u in state %d", l, m->ph);
		auto n = m->at(l);
		if (n && n->lex() && m->st.size() && !m->st.back().F && m->st.back().idx == int(l)) {// the layer under the extension
			if (m->st.back().step != 1) viol("insp.steps", "layer %d: bprop of the extended layer at step %d", n->idx, m->st.back().step); m->st.push_back({ false, int(l), 0, true }); if (m->bwdValid) cmpx(n, dLdA, n->dA); return;
		}
		m->st.push_back({ false, int(l) }); if (!n) return; check_parent(n, false); ++n->nb; seeZeros(n, dLdA);
		if (!m->bwdValid) return;
		if (l == m->chain.back()->idx) { const LM y = toLM<YT>(dLdA); if (y.d != m->lastY.d) viol("net.y", "the output layer got other targets than the batch has"); } else cmpx(n, dLdA, n->dOut);
	}
	void seeZeros(Node<T>* n, const X& d)const noexcept { if (!n->hasNZ() || !m->bwdValid || d.numel() != nc(n->dOut.d.size())) return; n->zeros.resize(n->dOut.d.size()); bool diff = false; for (size_t i = 0; i < n->zeros.size(); ++i) { n->zeros[i] = d.data()[i] == T(0); if (bool(n->zeros[i]) != (n->dOut.d[i] == 0)) diff = true; } if (diff) { ev("pen.rounded_to_zero"); m->bwd(); } }
	template<typename Q> void seeZeros(Node<T>*, const Q&)const noexcept {}
	void cmpx(Node<T>* n, const X& d, const LM& e)const noexcept { m->cmp("net.bprop_in", "incoming gradient", n, d, e); }
	template<typename Q> void cmpx(Node<T>*, const Q&, const LM&)const noexcept {}
	void bprop_end(const X& d) const noexcept {
		if (!m) return; if (m->st.empty() || m->st.back().F) { viol("insp.nest", "bprop_end without bprop_begin"); return; }
		const int l = m->st.back().idx, sp = m->st.back().step; const bool inn = m->st.back().inner; m->st.pop_back(); auto n = m->at(l); if (!n) return;
		if (sp < (n->dz() && (inn || !n->lex()) ? 4 : 1)) viol("insp.steps", "layer %d (%s) ends its backward pass at step %d", l, n->kind(), sp);
		if (m->bwdValid && n->need) m->cmp("net.bprop_out", "outgoing gradient", n, d, n->dP);
		if (m->st.empty() && l == m->chain[1]->idx) m->ph = Mon<T>::bdone;
	}
	void bprop_dLdW(const X& dLdZ, const X& prev, const X& dLdW) const noexcept;
	Node<T>* step(bool F, int s, const char* w)const noexcept {
		if (!m) return nullptr; if (m->st.empty() || m->st.back().F != F) { viol("insp.nest", "%s outside of its pass", w); return nullptr; }
		auto& f = m->st.back(); auto n = m->at(f.idx); if (s <= f.step) viol("insp.steps", "layer %d: %s after step %d", f.idx, w, f.step); f.step = s; ev("insp.steps"); return n && (F ? m->refValid : m->bwdValid) ? n : nullptr;
	}
	void fprop_makePreActivations(const X& W, const X& prev)const noexcept { if (auto n = step(true, 1, "fprop_makePreActivations")) { if (m->active && n->weights0() && !same_bits(*n->weights0(), W.data())) viol("insp.weights", "layer %d shows other weights than it has", n->idx); m->cmp("net.prevAct", "activations of the lower layer", n, prev, n->X, true); } }
	void fprop_makePreActivations(const X& prev)const noexcept { if (auto n = step(true, 1, "fprop_makePreActivations")) m->cmp("net.prevAct", "activations of the lower layer", n, prev, n->X); }
	void fprop_preactivations(const X& Z)const noexcept { if (auto n = step(true, 2, "fprop_preactivations")) { if (n->preact()) m->cmp("net.preact", "preactivations", n, Z, *n->preact()); } }
	void fprop_activations(const X& A)const noexcept { if (auto n = step(true, 3, "fprop_activations")) { if (n->rawA()) m->cmp("net.act", "activations", n, A, n->Ap); } }
	void bprop_finaldLdA(const X& d)const noexcept { if (auto n = step(false, 1, "bprop_finaldLdA")) m->cmp("net.finaldLdA", "final dL/dA", n, d, n->dA); }
	template<typename YT> void bprop_predLdZOut(const X& A, const math::smatrix<YT>&)const noexcept { if (auto n = step(false, 2, "bprop_predLdZOut")) m->cmp("net.act", "activations at the output", n, A, n->A); }
	void bprop_predAdZ(const X& A)const noexcept { if (auto n = step(false, 2, "bprop_predAdZ")) m->cmp("net.act", "activations before the derivative", n, A, n->A); }
	void bprop_dAdZ(const X& d)const noexcept { if (auto n = step(false, 3, "bprop_dAdZ")) { const LM e = n->dadz(); if (e.r) m->cmp("net.dAdZ", "dA/dZ", n, d, e); } }
	void bprop_dLdZ(const X& d)const noexcept { if (auto n = step(false, 4, "bprop_dLdZ")) { if (n->dz() && !n->clamps()) m->cmp("net.dLdZ", "dL/dZ", n, d, *n->dz()); } }
	void bprop_postClampdLdZ(const X& d, const T&, const T&)const noexcept { if (auto n = step(false, 5, "bprop_postClampdLdZ")) { if (!n->clamps()) viol("insp.clamp", "layer %d clamps, though not asked to", n->idx); if (n->dz()) m->cmp("net.dLdZ", "clamped dL/dZ", n, d, *n->dz()); } }
	// dropout
	Node<T>* dropped(const char* w)const noexcept {
		if (!m || !m->refValid) return nullptr; if (m->lastPop < 0) { viol("drop.event", "%s before any layer", w); return nullptr; } auto n = m->at(m->lastPop); if (!n) return nullptr;
		if (!n->dk || !(n->p < 1)) { viol("drop.event", "%s of layer %d (%s) that has no dropout", w, n->idx, n->kind()); return nullptr; }
		if (m->ph != Mon<T>::batch && m->ph != Mon<T>::fdone) viol("drop.mode", "%s of layer %d in inference mode", w, n->idx); return n;
	}
	void fprop_preDropout(const X& A, const T dpa, const X& u)const noexcept {
		auto n = dropped("fprop_preDropout"); if (!n) return; if (dpa != n->p) viol("drop.p", "layer %d drops with p %g instead of %g", n->idx, (double)dpa, (double)n->p);
		m->cmp("drop.pre", "activations before the dropout", n, A, n->Ap); n->orig.assign(A.data(), A.data() + A.numel_no_bias()); n->maskT = snap<T>(u); for (auto q : n->maskT) if (!(q >= 0 && q <= 1)) { viol("drop.random", "layer %d: random value %g", n->idx, (double)q); break; }
	}
	void fprop_postDropout(const X& A, const X& k)const noexcept {
		auto n = dropped("fprop_postDropout"); if (!n) return; ++n->nd; LM q = toLM<T>(k); uint64_t kept = 0; const ld keep = n->dk == 1 ? 1 / (ld)n->p : n->da;
		if (q.r != n->Ap.r || q.c != n->Ap.c) { viol("drop.mask", "layer %d: mask [%d,%d] for activations [%d,%d]", n->idx, q.r, q.c, n->Ap.r, n->Ap.c); return; }
		for (size_t i = 0; i < q.d.size(); ++i) { if (q.d[i] == 0) continue; ++kept; if (!(std::fabs(q.d[i] - keep) <= 8 * EPS<T>*keep)) { viol("drop.mask", "layer %d: mask value %.9g, expected 0 or %.9g", n->idx, (double)q.d[i], (double)keep); break; } }
		n->mask = q; m->compute(m->lastX); m->cmp("drop.post", "activations after the dropout", n, A, n->A); if (A.emulatesBiases() && !n->parent) for (int i = 0; i < n->A.r; ++i) if (A.get(i, n->A.c) != T(1)) { viol("drop.bias", "layer %d: the dropout changed the biases", n->idx); break; }
		const ld pp = n->p, H = -(pp*std::log2(pp) + (1 - pp)*std::log2(1 - pp)); const auto cur = snap<T>(k); if (cur.size()*H > 80 && cur == n->prevMask) viol("drop.same", "layer %d: the same mask of %zu elements in two batches", n->idx, cur.size()); n->prevMask = cur;
		auto& st = dropStat(); st[0] += kept; st[1] += pp * q.d.size(); st[2] += pp * (1 - pp)*q.d.size(); ev("drop.masks"); ev("drop.cells", q.d.size()); ev("drop.zeros", q.d.size() - kept);
	}
	static std::array<ld, 3>& dropStat() { static std::array<ld, 3> s{}; return s; }
	void bprop_preCancelDropout(const X& d, const X& A, const T dpa)const noexcept { auto n = cancels("bprop_preCancelDropout"); if (!n) return; if (dpa != n->p) viol("drop.p", "layer %d cancels with p %g instead of %g", n->idx, (double)dpa, (double)n->p); m->cmp("drop.bprop", "gradient above the dropout", n, d, n->dOut); m->cmp("drop.bprop", "dropped out activations", n, A, n->Ad); }
	void bprop_postCancelDropout(const X& d, const X& A)const noexcept { auto n = cancels("bprop_postCancelDropout"); if (!n) return; LM e = n->dOut; for (size_t i = 0; i < e.d.size() && i < n->mask.d.size(); ++i) e.d[i] *= n->mask.d[i]; m->cmp("drop.bprop", "gradient below the dropout", n, d, e); if (n->orig.size() != size_t(A.numel_no_bias()) || !same_bits(n->orig, A.data())) viol("drop.restore", "layer %d: the activations are not what they were before the dropout", n->idx); ev("drop.cancels"); }
	Node<T>* cancels(const char* w)const noexcept { if (!m || !m->bwdValid) return nullptr; if (m->st.empty() || m->st.back().F || m->st.back().inner || m->st.back().step) { viol("insp.nest", "%s outside of its pass", w); return nullptr; } auto n = m->at(m->st.back().idx); if (n && !n->mask.r) { viol("drop.event", "%s of layer %d that dropped nothing", w, n->idx); return nullptr; } return n; }
	int apply = 0;
	void apply_grad_begin(const X&, const X&)const noexcept { if (!m) return; if (m->st.empty() || m->st.back().F) viol("insp.nest", "apply_grad_begin outside of bprop"); }
	void apply_grad_end(const X&)const noexcept { if (!m) return; ev("insp.apply_grad"); if (m->st.empty() || m->st.back().F) viol("insp.nest", "apply_grad_end outside of bprop"); }
};
template<typename T> struct NI : dt_interfaces<T> { typedef MonInsp<T> iInspect_t; };
template<typename T> using GWN = grad_works<NI<T>>;

// --- nodes
template<typename T> struct RInput : Node<T> { RInput() { this->idx = 0; } const char* kind()const override { return "input"; } void fwd_(const LM& x) override { this->X = this->A = x; } void bwd_(const LM&) override {} };
template<typename T> struct RWeights : Node<T> {
	std::function<M<T>&()> getW; LM W, dZ, dW, W1; T lr = 0; bool upd = true; T l1 = 0, l2 = 0; bool l1b = true, l2b = true;
	std::vector<T> before;
	const LM* dz()const override { return &dZ; } const std::vector<T>* weights0()const override { return &before; }
	void pull() override { auto& w = getW(); W = toLM<T>(w); before = snap(w); W1 = LM(); dW = LM(); }
	nc params()const override { auto& w = getW(); return upd ? w.numel() : 0; }
	ld addendum()const override {
		auto& w = getW(); ld s = 0; const int n = w.cols(); for (int j = 0; j < n; ++j) for (int i = 0; i < int(w.rows()); ++i) { const ld x = w.get(i, j); if (l1 > 0 && (j < n - 1 || !l1b)) s += l1 * std::fabs(x); if (l2 > 0 && (j < n - 1 || !l2b)) s += x * x*l2 / 2; } return s;
	}
	LM pre(const LM& x) { LM z(x.r, W.r); for (int k = 0; k < W.r; ++k) for (int i = 0; i < x.r; ++i) { ld s = W(k, W.c - 1); for (int j = 0; j < x.c; ++j) s += x(i, j)*W(k, j); z(i, k) = s; } return z; }
	void back() {// from dZ
		const LM& x = this->X; LM p(x.r, x.c); for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) { ld s = 0; for (int k = 0; k < W.r; ++k) s += dZ(i, k)*W(k, j); p(i, j) = s; } this->dP = p;
		dW = LM(W.r, W.c); if (x.r) for (int k = 0; k < W.r; ++k) for (int j = 0; j < W.c; ++j) { ld s = 0; for (int i = 0; i < x.r; ++i) s += dZ(i, k)*(j < x.c ? x(i, j) : 1); dW(k, j) = s / x.r; }
		W1 = W; if (upd && x.r) for (int k = 0; k < W.r; ++k) for (int j = 0; j < W.c; ++j) { ld g = dW(k, j); const ld w = W(k, j); if (l1 > 0 && (j < W.c - 1 || !l1b)) g += l1 * (w > 0 ? 1 : w < 0 ? -1 : 0); if (l2 > 0 && (j < W.c - 1 || !l2b)) g += l2 * w; W1(k, j) -= lr * g; }
	}
	void cmpW(Mon<T>& m) override {
		auto& w = getW(); if (!upd || !this->X.r) { if (!same_bits(before, w.data())) viol("net.frozen", "weights of layer %d (%s) changed, though %s, %s", this->idx, this->kind(), upd ? "no sample got there" : "updates are off", m.where().c_str()); return; }
		m.cmp("net.weights", "updated weights", this, w, W1); ev("net.weight_updates");
	}
};
template<typename T> void MonInsp<T>::bprop_dLdW(const X& dLdZ, const X& prev, const X& dLdW) const noexcept {
	if (!m) return; if (m->st.empty() || m->st.back().F) { viol("insp.nest", "bprop_dLdW outside of bprop"); return; }
	auto& f = m->st.back(); if (f.step != 4 && f.step != 5) viol("insp.steps", "layer %d: bprop_dLdW after step %d", f.idx, f.step); f.step = 6; auto n = dynamic_cast<RWeights<T>*>(m->at(m->st.back().idx)); if (!n || !m->bwdValid) return;
	m->cmp("net.dLdZ", "dL/dZ", n, dLdZ, n->dZ); m->cmp("net.prevAct", "activations used for the gradient", n, prev, n->X, true); m->cmp("net.dLdW", "weight gradient", n, dLdW, n->dW);
}
template<typename T, typename N, typename L> bool tune_reg(R& r, N& n, L& l) {
	bool c = false; auto& g = l.get_gradWorks(); if (g.learning_rate() != n.lr) viol("net.settings", "learning rate of layer %d is %g instead of %g", n.idx, (double)g.learning_rate(), (double)n.lr);
	if (r.chance(15)) { n.l1 = r.b() ? T(0) : T(r.uni(.001, .03)); n.l1b = r.b(); g.L1(n.l1, n.l1b); c = true; } if (r.chance(15)) { n.l2 = r.b() ? T(0) : T(r.uni(.001, .05)); n.l2b = r.b(); g.L2(n.l2, n.l2b); c = true; }
	if (r.chance(15)) { n.lr *= T(r.uni(.5, 1)); g.learning_rate(n.lr); c = true; } return c;
}
template<typename T, typename L> struct RFC : RWeights<T> {
	bool tune(R& r) override { return tune_reg<T>(r, *this, l); }
	L& l; RAct a; LM Z;
	RFC(L& l_, RAct a_, T lr_) : l(l_), a(a_) { this->idx = l.get_layer_idx(); this->lr = lr_; this->getW = [this]()->M<T>& { return l.get_weights(); }; }
	const char* kind()const override { return "fc"; } const LM* preact()const override { return &Z; }
	LM dadz()const override { LM e = Z; for (size_t i = 0; i < e.d.size(); ++i) e.d[i] = a.df(Z.d[i], this->A.d[i]); return e; }
	void fwd_(const LM& x) override { this->X = x; Z = this->pre(x); this->A = Z; for (auto& q : this->A.d) q = a.f(q); }
	void bwd_(const LM& d) override { this->dA = d; this->dZ = d; for (size_t i = 0; i < d.d.size(); ++i) this->dZ.d[i] *= a.df(Z.d[i], this->A.d[i]); this->back(); }
};
enum class OutK { sigm_xe, softmax_xe, sigm_q, ident_q };
template<typename T, typename L> struct ROut : RWeights<T> {
	bool tune(R& r) override {
		const bool c = tune_reg<T>(r, *this, l); if (!r.chance(20)) return c;
		if (lo < 0 && r.b()) { lo = hi = 0; l.drop_dL_dZ_restriction(); ev("net.unclamped"); } else { lo = T(r.uni(-.4, -.05)); hi = T(r.uni(.05, .4)); l.restrict_dL_dZ(T(lo), T(hi)); } return true;
	}
	L& l; OutK k; LM Y, Z; ld lo = 0, hi = 0;
	ROut(L& l_, OutK k_, T lr_) : l(l_), k(k_) { this->idx = l.get_layer_idx(); this->lr = lr_; this->getW = [this]()->M<T>& { return l.get_weights(); }; }
	const char* kind()const override { return "out"; } const LM* preact()const override { return &Z; } bool clamps()const override { return lo < 0; }
	void fwd_(const LM& x) override {
		this->X = x; LM z = this->pre(x); Z = z; this->A = z;
		if (k == OutK::softmax_xe) for (int i = 0; i < z.r; ++i) { ld mx = -INFINITY, s = 0; for (int j = 0; j < z.c; ++j) mx = std::max(mx, z(i, j)); for (int j = 0; j < z.c; ++j) s += std::exp(z(i, j) - mx); for (int j = 0; j < z.c; ++j) this->A(i, j) = std::exp(z(i, j) - mx) / s; }
		else if (k != OutK::ident_q) for (auto& q : this->A.d) q = 1 / (1 + std::exp(-q));
	}
	void bwd_(const LM&) override {
		this->dZ = this->A; for (size_t i = 0; i < Y.d.size(); ++i) { const ld a = this->A.d[i]; ld g = a - Y.d[i]; if (k == OutK::sigm_q) g *= a * (1 - a); if (lo < 0) g = std::min(std::max(g, lo), hi); this->dZ.d[i] = g; }
		this->back();
	}
	ld loss(const LM& a, const LM& y) {
		const ld mn = std::numeric_limits<T>::min(); ld s = 0;
		for (size_t i = 0; i < a.d.size(); ++i) { const ld p = a.d[i], t = y.d[i]; s += k == OutK::sigm_xe ? (t > 0 ? -std::log(p + mn) : -std::log(1 - p + mn)) : k == OutK::softmax_xe ? -t * (p > 0 ? std::log(p) : std::log(mn)) : (p - t)*(p - t) / 2; }
		return s;
	}
};
template<typename T, typename L> struct RLI : Node<T> {
	RLI(L& l) { this->idx = l.get_layer_idx(); } const char* kind()const override { return "identity"; }
	void fwd_(const LM& x) override { this->X = this->A = x; } void bwd_(const LM& d) override { this->dA = this->dP = d; }
};
template<typename T, typename L> struct RLIG : RLI<T, L> {// gate: binarised input
	ld thr; RLIG(L& l, ld t) : RLI<T, L>(l), thr(t) { this->passive = true; } const char* kind()const override { return "gate"; } bool rawA()const override { return false; }
	void fwd_(const LM& x) override { this->X = this->A = x; if (thr >= 0) for (auto& q : this->A.d) q = q > thr ? 1 : 0; }
};
template<typename T> struct RPack : Node<T> {
	std::vector<Node<T>*> ch;
	void each(const std::function<void(Node<T>*)>& f) override { f(this); for (auto c : ch) c->each(f); }
	void bind(Node<T>* p, bool nd) override { Node<T>::bind(p, nd); for (auto c : ch) c->bind(this, nd); }
};
template<typename T, typename L> struct RLPV : RPack<T> {
	RLPV(L& l, std::vector<Node<T>*> c) { this->idx = l.get_layer_idx(); this->ch = c; } const char* kind()const override { return "vertical pack"; }
	void bind(Node<T>* p, bool nd) override { Node<T>::bind(p, nd); for (size_t i = 0; i < this->ch.size(); ++i) this->ch[i]->bind(this, i ? true : nd); }
	void fwd_(const LM& x) override { this->X = x; LM c = x; for (auto n : this->ch) { n->fwd(c); c = n->A; } this->A = c; }
	void bwd_(const LM& d) override { this->dA = d; LM c = d; for (size_t i = this->ch.size(); i-- > 0;) { this->ch[i]->bwd(c); c = this->ch[i]->dP; } this->dP = c; }
};
struct PH { int o, n; };
template<typename T, typename L> struct RLPH : RPack<T> {
	std::vector<PH> ph; RLPH(L& l, std::vector<std::pair<Node<T>*, PH>> c) { this->idx = l.get_layer_idx(); for (auto& q : c) { this->ch.push_back(q.first); ph.push_back(q.second); } } const char* kind()const override { return "horizontal pack"; }
	void fwd_(const LM& x) override { this->X = x; LM a(x.r, 0); for (size_t k = 0; k < ph.size(); ++k) { this->ch[k]->fwd(x.cols(ph[k].o, ph[k].n)); const LM& q = this->ch[k]->A; a.d.insert(a.d.end(), q.d.begin(), q.d.end()); a.c += q.c; } this->A = a; }
	void bwd_(const LM& d) override { this->dA = d; this->dP = LM(this->X.r, this->X.c); int o = 0; for (size_t k = 0; k < ph.size(); ++k) { auto n = this->ch[k]; n->bwd(d.cols(o, n->A.c)); o += n->A.c; for (int j = 0; j < ph[k].n; ++j) for (int i = 0; i < d.r; ++i) this->dP(i, ph[k].o + j) += n->dP(i, j); } }
};
template<typename T, typename L> struct RLPT : RPack<T> {
	int K; RLPT(L& l, Node<T>* c, int k) : K(k) { this->idx = l.get_layer_idx(); this->ch = { c }; } const char* kind()const override { return "tiled pack"; }
	LM roll(const LM& x) { LM y(x.r*K, x.c / K); for (int t = 0; t < K; ++t) for (int j = 0; j < y.c; ++j) for (int i = 0; i < x.r; ++i) y(t*x.r + i, j) = x(i, t*y.c + j); return y; }
	LM unroll(const LM& y) { LM x(y.r / K, y.c*K); for (int t = 0; t < K; ++t) for (int j = 0; j < y.c; ++j) for (int i = 0; i < x.r; ++i) x(i, t*y.c + j) = y(t*x.r + i, j); return x; }
	void fwd_(const LM& x) override { this->X = x; this->ch[0]->fwd(roll(x)); this->A = unroll(this->ch[0]->A); }
	void bwd_(const LM& d) override { this->dA = d; this->ch[0]->bwd(roll(d)); this->dP = unroll(this->ch[0]->dP); }
};
template<typename T, typename L> struct RLPHO : RPack<T> {// ch[0] is the gate
	std::vector<PH> ph; std::vector<std::vector<int>> ix; std::vector<int> outc; bool add;
	RLPHO(L& l, bool add_, std::vector<std::pair<Node<T>*, PH>> c, std::vector<int> oc) : outc(oc), add(add_) { this->idx = l.get_layer_idx(); for (auto& q : c) { this->ch.push_back(q.first); ph.push_back(q.second); } } const char* kind()const override { return "optional pack"; }
	void bind(Node<T>* p, bool nd) override { RPack<T>::bind(p, nd); }
	void fwd_(const LM& x) override {
		this->X = x; const int G = int(ph.size()) - 1; auto g = this->ch[0]; g->fwd(x.cols(ph[0].o, ph[0].n)); LM a = g->A;
		if (add) { for (int k = 0; k < G; ++k) for (int i = 0; i < x.r; ++i) a.d.push_back(1 - g->A(i, k)); a.c += G; }
		ix.assign(G, {});
		for (int k = 0; k < G; ++k) {
			for (int i = 0; i < x.r; ++i) if (g->A(i, k) != 0) ix[k].push_back(i);
			auto n = this->ch[k + 1]; n->fwd(x.cols(ph[k + 1].o, ph[k + 1].n).rows(ix[k]));
			LM q(x.r, outc[k]); if (ix[k].size()) for (int j = 0; j < q.c; ++j) for (size_t i = 0; i < ix[k].size(); ++i) q(ix[k][i], j) = n->A(int(i), j);
			a.d.insert(a.d.end(), q.d.begin(), q.d.end()); a.c += q.c;
			ev(ix[k].empty() ? "net.gate_closed" : int(ix[k].size()) == x.r ? "net.gate_open" : "net.gate_partial");
		}
		this->A = a;
	}
	void bwd_(const LM& d) override {
		this->dA = d; this->dP = LM(this->X.r, this->X.c); const int G = int(ph.size()) - 1; int o = G * (1 + add);
		this->ch[0]->bwd(LM(this->X.r, G)); 
		for (int k = 0; k < G; ++k) { auto n = this->ch[k + 1]; n->bwd(d.cols(o, outc[k]).rows(ix[k])); o += outc[k]; for (int j = 0; j < ph[k + 1].n; ++j) for (size_t i = 0; i < ix[k].size(); ++i) this->dP(ix[k][i], ph[k + 1].o + j) = n->dP(int(i), j); }
	}
};
// --- the observer: protocol of the reports, and the reported activations and losses
template<typename T> struct MonObs : i_training_observer<T> {
	typedef math::smatrix<T> realmtx_t; typedef std::chrono::nanoseconds nanoseconds;
	Mon<T>* m = nullptr; bool inited = false, started = false, ended = false; int nInit = 0, nDeinit = 0; long long lastEpoch = -2; std::vector<long long> reported; std::vector<double> trainLosses;
	bool refuse = false; std::map<int, nc> sizes; bool full = true; vl bs = 0, maxF = 0;
	int cur = -1; long long nb = 0, bi = 0; nc rows = 0; ld sum = 0; ld lastSet[2] = { -1, -1 }; ld tolSum = 0;
	template<typename TD, typename CD> bool init(numel_cnt_t, TD& td, const CD&)noexcept { if (inited) viol("obs.init", "initialised twice"); inited = true; ++nInit; started = ended = false; lastEpoch = -2; reported.clear(); trainLosses.clear(); sizes[0] = td.dataset_samples_count(0); sizes[1] = td.dataset_samples_count(1); if (refuse) { inited = false; return false; } return true; }
	void deinit()noexcept { if (!inited) viol("obs.deinit", "deinit without init"); inited = false; ++nDeinit; }
	void report_results_begin(const data_set_id_t ds, const numel_cnt_t n)noexcept { if (!inited || !started || cur >= 0 || n < 1) viol("obs.order", "report_results_begin(%d, %lld) out of order", int(ds), (long long)n); cur = int(ds); nb = n; bi = 0; rows = 0; sum = 0; tolSum = 0; if (m->ph != Mon<T>::calc || m->calcSet != cur) viol("obs.order", "reporting outside of the loss calculation"); }
	template<typename YT, typename CD> void report_results(const numel_cnt_t b, const realmtx_t& a, const math::smatrix<YT>& y, const CD& cd)noexcept {
		if (cur < 0 || b != bi) viol("obs.order", "batch %lld reported instead of %lld", (long long)b, bi); ++bi; rows += y.rows();
		if (maxF && y.rows() > maxF) viol("obs.batch", "batch of %u rows is bigger than %u", y.rows(), maxF);
		if (cd.is_training_mode() || cd.input_batch_size() != y.rows()) viol("obs.batch", "mode or batch size is wrong during the report");
		m->cmp("obs.activations", "reported activations", m->chain.back(), a, m->out()); const LM Y = toLM<YT>(y); const ld l = m->loss(toLM<T>(a), Y); sum += l; tolSum += std::fabs(l); ev("obs.batches");
	}
	void report_results_end(const T lossVal)noexcept {
		if (cur < 0 || bi != nb) viol("obs.order", "report ended after %lld of %lld batches", bi, nb); if (sizes.count(cur) && rows != sizes[cur]) viol("obs.rows", "set %d: %lld of %lld samples were evaluated", cur, (long long)rows, (long long)sizes[cur]);
		const ld e = sum / (rows ? rows : 1) + (full ? m->addendum() : 0);
		if (full && nb > 1) for (auto n : m->all) if (n->pens.size()) { if (cur < 2) lastSet[cur] = lossVal; cur = -1; ev("obs.reports"); return; }// penalties of activations: the last batch stands for the set
		if (m->active && !(std::fabs((ld)lossVal - e) <= NTOL<T>*10 * (1 + std::fabs(e) + tolSum / (rows ? rows : 1)))) viol("obs.loss", "loss of set %d over %lld samples in %lld batches: %.9g, expected %.9g", cur, (long long)rows, nb, (double)lossVal, (double)e);
		if (cur >= 0 && cur < 2) lastSet[cur] = lossVal; cur = -1; ev("obs.reports");
	}
	template<typename TD> void on_training_start(const TD&, vl bs_, vl mf, numel_cnt_t np)noexcept { if (!inited || started) viol("obs.order", "on_training_start out of order"); started = true; bs = bs_; maxF = mf; if (np != m->params()) viol("obs.params", "%lld parameters reported, %lld exist", (long long)np, (long long)m->params()); }
	void on_training_fragment_end(const numel_cnt_t e, const T tr, const T te, const nanoseconds& ns)noexcept {
		if (!started || ended || cur >= 0 || e <= lastEpoch || ns.count() < 0) viol("obs.order", "fragment %lld ends after fragment %lld", (long long)e, lastEpoch); if (e != m->epochIdx) viol("obs.order", "fragment %lld reported in epoch %lld", (long long)e, m->epochIdx); lastEpoch = e; reported.push_back(e); trainLosses.push_back(tr);
		if ((ld)tr != lastSet[0] || (ld)te != lastSet[1]) viol("obs.loss", "fragment %lld reports losses %g/%g, the sets gave %g/%g", (long long)e, (double)tr, (double)te, (double)lastSet[0], (double)lastSet[1]); ev("obs.fragments");
	}
	void on_training_end(const nanoseconds& ns)noexcept { if (!started || ended || ns.count() < 0) viol("obs.order", "on_training_end out of order"); ended = true; }
};

// --- data
struct DataSpec { OutK k; int nx, ny; bool gates = false; std::vector<std::pair<int, int>> gateCols; };
template<typename T> void mkXY(R& r, M<T>& X, M<T>& Y, const DataSpec& s) {
	for (vl c = 0; c < X.cols_no_bias(); ++c) for (vl q = 0; q < X.rows(); ++q) X.set(q, c, T(r.uni(-1.5, 1.5)));
	for (auto& g : s.gateCols) for (int c = g.first; c < g.first + g.second; ++c) { const int pr = r.pick({ 0, 5, 50, 50, 90, 100 }); for (vl q = 0; q < X.rows(); ++q) X.set(q, c, r.chance(pr) ? T(1) : T(0)); }
	for (vl q = 0; q < Y.rows(); ++q) { const int one = r.below(s.ny); for (int c = 0; c < s.ny; ++c) Y.set(q, c, s.k == OutK::softmax_xe ? T(c == one) : s.k == OutK::sigm_xe ? T(r.b()) : s.k == OutK::sigm_q ? T(r.u01()) : T(r.uni(-2, 2))); }
}
template<typename T> bool mkTD(R& r, inmem_train_data<T>& td, int n1, int n2, const DataSpec& s) {
	M<T> a(n1, s.nx, true), b(n1, s.ny), c(n2, s.nx, true), d(n2, s.ny); mkXY<T>(r, a, b, s); mkXY<T>(r, c, d, s);
	return td.absorb(std::move(a), std::move(b), std::move(c), std::move(d));
}

// --- random histories of training sessions and inference on one network
struct DriveOpt { int actions = 3; int maxN = 40; int maxEpochs = 4; bool api = false; bool infFirst = true; int reenter = 0; std::function<void()> tweak; bool gatedPen = false; };
// every layer is met once and in order
template<typename T, typename LP> void traversal(const char* w, LP& lp, Mon<T>& mon) {
	std::vector<int> up, dn, top, got; std::function<void(Node<T>*)> U = [&](Node<T>* n) { if (auto p = dynamic_cast<RPack<T>*>(n)) for (auto c : p->ch) U(c); up.push_back(n->idx); }, D = [&](Node<T>* n) { dn.push_back(n->idx); if (auto p = dynamic_cast<RPack<T>*>(n)) for (size_t i = p->ch.size(); i-- > 0;) D(p->ch[i]); };
	for (auto n : mon.chain) { U(n); top.push_back(n->idx); } for (size_t i = mon.chain.size(); i-- > 0;) D(mon.chain[i]); auto rtop = top; std::reverse(rtop.begin(), rtop.end()); const LP& clp = lp; auto f = [&](auto& l) { got.push_back(int(l.get_layer_idx())); };
	auto chk = [&](const char* nm, const std::vector<int>& e) { if (got != e) viol("net.traversal", "%s of %s met %zu layers instead of %zu or in another order", nm, w, got.size(), e.size()); got.clear(); };
	auto tail = [](std::vector<int> v) { v.erase(v.begin()); return v; }; auto head = [](std::vector<int> v) { v.pop_back(); return v; };
	lp.for_each_layer(f); chk("for_each_layer", up); clp.for_each_layer(f); chk("for_each_layer const", up); lp.for_each_layer_down(f); chk("for_each_layer_down", dn); clp.for_each_layer_down(f); chk("for_each_layer_down const", dn);
	lp.for_each_packed_layer(f); chk("for_each_packed_layer", top); lp.for_each_packed_layer_down(f); chk("for_each_packed_layer_down", rtop); lp.for_each_layer_exc_input(f); chk("for_each_layer_exc_input", tail(up)); lp.for_each_packed_layer_exc_input(f); chk("for_each_packed_layer_exc_input", tail(top)); lp.for_each_packed_layer_exc_input_down(f); chk("for_each_packed_layer_exc_input_down", head(rtop));
	std::sort(up.begin(), up.end()); for (size_t i = 0; i < up.size(); ++i) if (up[i] != int(i)) viol("net.index", "layer %zu is numbered %d", i, up[i]);
	ev("net.traversals");
}
template<typename T, typename LP> void drive(R& r, LP& lp, Mon<T>& mon, const DataSpec& s, const DriveOpt& o = DriveOpt()) {
	typedef _nnet_errs::ErrorCode EC;
	MonInsp<T> insp; insp.m = &mon;
	auto nn = make_nnet(lp, insp); nn.get_iRng().seed64(r.u64() >> 1);
	std::vector<std::vector<T>> keep; bool haveKeep = false;
	traversal<T>("the network", nn.get_layer_pack(), mon);
	// settings changed between epochs and sessions
	auto retune = [&] {
		if (r.chance(75)) return; for (auto n : mon.all) if (r.b() && n->tune(r)) ev("net.retuned");
		if (r.chance(30)) { auto& L = nn.get_layer_pack(); const T d = T(r.uni(.5, 1)); if (r.b()) { L.for_each_layer(hlpr_learning_rate_decay<T>(d)); for (auto n : mon.all) if (auto w = dynamic_cast<RWeights<T>*>(n)) w->lr *= d; } else { const T q = T(r.uni(.002, .03)); L.for_each_layer_exc_input([&](auto& l) { if (d > T(.75)) hlpr_layer_set_learning_rate()(l, q); else hlpr_layer_learning_rate_decay()(l, d); }); for (auto n : mon.all) if (auto w = dynamic_cast<RWeights<T>*>(n)) w->lr = d > T(.75) ? q : w->lr*d; } ev("net.lr_helpers"); }
	};
	auto ws = [&] { std::vector<std::vector<T>> v; for (auto n : mon.all) if (auto w = dynamic_cast<RWeights<T>*>(n)) v.push_back(snap<T>(w->getW())); return v; };
	inmem_train_data<T> td, td2; int N = r.in(1, o.maxN), N2 = r.in(1, o.maxN); if (!mkTD<T>(r, td, N, N2, s)) { viol("net.td", "can't absorb"); return; }
	inmem_train_data<T>* cur = &td; bool haveTd2 = false;
	long long mustReinit = -1;// a pending require_reinit(): the number of the layer initialisations seen till then
	auto reinited = [&](const char* what) { if (mustReinit >= 0) { if (mon.nInitLayers - mustReinit < (long long)mon.all.size()) viol("net.require_reinit", "%s after require_reinit(): %lld of %zu layers were initialised", what, mon.nInitLayers - mustReinit, mon.all.size()); else ev("net.required_reinits"); mustReinit = -1; } };
	vl curTrainBs = 0; std::set<vl> tdBs; //tdBs: the batch sizes the training data may be initialised to (0 given without a forced reinitialisation keeps it)
	for (int act = 0; act < o.actions && mon.active; ++act) {
		const int kind = act == 0 && !o.infFirst ? 0 : r.below(100);
		mon.ph = Mon<T>::idle; mon.st.clear(); mon.epochIdx = -1; mon.batchIdx = -1; if (o.tweak) o.tweak(); retune();
		if (kind < 55) {
			if (r.chance(20)) { haveTd2 = true; const int a = r.in(1, o.maxN), b = r.in(1, o.maxN); cur->deinit4all(); if (!mkTD<T>(r, cur == &td ? td2 : td, a, b, s)) { viol("net.td", "can't absorb"); return; } cur = cur == &td ? &td2 : &td; N = a; N2 = b; tdBs.clear(); }
			const int ep = r.in(1, o.maxEpochs); const int mode = r.below(4);
			nnet_train_opts<T, MonObs<T>> opts = mode == 0 ? nnet_train_opts<T, MonObs<T>>(nc(ep), nc(r.in(1, ep))) : mode == 1 ? nnet_train_opts<T, MonObs<T>>(nc(ep), r.b()) : nnet_train_opts<T, MonObs<T>>(nc(ep));
			const vl bs = r.pick({ 0, 1, r.in(1, N), r.in(1, N), N, std::max(1, N / 2), std::max(1, N / 3) });
			const vl mf = bs && r.b() ? r.pick({ int(bs), r.in(int(bs), std::max(int(bs), std::max(N, N2))), std::max({ int(bs), N, N2 }) + 3 }) : 0;
			opts.batchSize(bs); if (mf) opts.maxFpropSize(mf);
			const bool full = !o.gatedPen && r.b(), imd = r.chance(30), frd = r.chance(70); opts.calcFullLossValue(full).ImmediatelyDeinit(imd).bForceReinitTD(frd);
			int dl = -2; double thr = 1e30;
			if (r.chance(40)) { dl = r.in(0, ep + 1); opts.divergenceCheckLastEpoch(int16_t(dl)); if (r.chance(50)) { thr = r.uni(.2, 2.5); } opts.divergenceCheckThreshold(T(thr)); } else { opts.noDivergenceCheck(); }
			const bool onlyTime = r.chance(10); opts.bReportOnlyTime(onlyTime);
			auto& ob = opts.observer(); ob.m = &mon; ob.full = full; ob.refuse = o.api && r.chance(5);
			const int stopAt = r.chance(15) ? r.below(ep) : -1; const bool initFail = o.api && r.chance(5); int initCalls = 0; std::vector<size_t> cbs;
			mon.nEpochs = 0; mon.nBatchesTotal = 0; 
			char b[300]; snprintf(b, sizeof(b), "%s act %d: train N %d/%d epochs %d bs %d maxF %d full %d deinit %d forceTD %d div %d/%g stop %d onlyTime %d", o.api ? "api" : "net", act, N, N2, ep, int(bs), int(mf), full, imd, frd, dl, thr, stopAt, onlyTime); note(b); if (vh::S().nsamples < 6) vh::sample("%s", b);
			seen("train", bs == 0, bs == 1, N % std::max(1, int(bs)) == 0, mf == 0, mf > std::max(N, N2), imd, frd, full, dl > 0, stopAt >= 0, mode, act > 0, curTrainBs > bs, onlyTime);
			bool firstSeen = false;
			if (haveKeep) { const auto w = ws(); if (w != keep) viol("train.keep", "weights changed between sessions"); }
			const bool iOn = !o.api || r.b(), iForce = !o.api || r.b(); insp.act = iOn; insp.nOn = insp.nOff = 0; opts.bForceInspectorOnDuringTraining(iForce);
			auto reenter = [&]() {// the epoch callback may use the network for inference
				const int rows = r.in(1, std::max(1, int(ob.maxF))); M<T> X(rows, s.nx, true), Y(rows, s.ny); mkXY<T>(r, X, Y, s); const auto w0 = ws();
				if (r.b()) { const EC e2 = nn.fprop(X); if (e2 != EC::Success) viol("train.reenter", "fprop() of %d rows from the callback: code %d", rows, int(e2)); }
				else { nn.prepare_to_doFixedBatchFprop(rows); nn.doFixedBatchFprop(X); }
				mon.cmp("train.reenter", "inference from the epoch callback", mon.chain.back(), nn.get_layer_pack().output_layer().get_activations(), mon.out()); if (w0 != ws()) viol("train.keep", "inference changed the weights"); ev("train.reentries");
			};
			const EC ec = nn.train(*cur, opts, [&](size_t e) { cbs.push_back(e); if (mon.ph != Mon<T>::idle) viol("train.cb", "epoch end callback in state %d", mon.ph); if (e != size_t(mon.epochIdx)) viol("train.cb", "epoch %zu ended in epoch %lld", e, mon.epochIdx); if (r.chance(o.reenter)) reenter(); if (o.tweak) o.tweak(); retune(); return int(e) != stopAt; },
				[&]() { ++initCalls; firstSeen = true; if (insp.act != (iForce || iOn)) viol("train.inspector", "during training the inspector is %s", insp.act ? "on" : "off"); if (haveKeep) { const auto w = ws(); if (w != keep) viol("train.keep", "weights did not survive the initialisation of the next session"); } return initFail ? EC::PostInitStopFromCallback : EC::Success; });
			if (iOn || iForce) reinited("train()"); else mustReinit = -1; ev("train.sessions"); if (insp.act != iOn || (!iForce && insp.nOn + insp.nOff)) viol("train.inspector", "the inspector was %s and is left %s", iOn ? "on" : "off", insp.act ? "on" : "off"); insp.act = true;
			if (initCalls != 1) viol("train.init_cb", "init callback ran %d times", initCalls);
			if (ob.inited || ob.nInit != ob.nDeinit + (ob.refuse && !initFail ? 1 : 0)) viol("obs.init", "observer was initialised %d times, deinitialised %d times", ob.nInit, ob.nDeinit);
			if (nn.get_last_error() != ec) viol("train.code", "last error differs from the returned code");
			if (initFail) { if (ec != EC::PostInitStopFromCallback || mon.nEpochs || ob.nInit) viol("train.code", "stop from the init callback: code %d, %lld epochs", int(ec), mon.nEpochs); ev("train.init_stops"); } 
			else if (ob.refuse) { if (ec != EC::CantInitializeObserver || mon.nEpochs) viol("train.code", "refused observer: code %d, %lld epochs", int(ec), mon.nEpochs); ev("train.obs_refusals"); }
			else {
				long long exEp = ep; bool div = false; std::vector<long long> exRep{ -1 };
				for (size_t i = 1; i < ob.reported.size(); ++i) if (ob.reported[i] < dl && ob.trainLosses[i] >= (double)T(thr)) { div = true; exEp = ob.reported[i] + 1; break; }
				if (!div && stopAt >= 0) exEp = stopAt + 1;
				for (long long e = 0; e < exEp; ++e) if (e < dl || (opts.getCondEpochEval()(e) && !onlyTime)) exRep.push_back(e);
				if (ec != (div ? EC::NNDiverged : EC::Success)) viol("train.code", "code %d, expected %s", int(ec), div ? "NNDiverged" : "Success");
				if (div) ev("train.divergence"); if (stopAt >= 0 && !div) ev("train.stops");
				if (mon.nEpochs != exEp) viol("train.epochs", "%lld epochs were run instead of %lld", mon.nEpochs, exEp);
				if (ob.reported != exRep) viol("train.reports", "%zu reports instead of %zu", ob.reported.size(), exRep.size());
				if (long(cbs.size()) != exEp - div) viol("train.cb", "%zu epoch callbacks for %lld epochs", cbs.size(), exEp);
				if (ob.ended != (!div && !onlyTime)) viol("obs.order", "on_training_end: %d", ob.ended);
				const long long nbx = exEp * (N / std::max(1, int(ob.bs))); if (mon.nBatchesTotal != nbx) viol("train.batches", "%lld batches instead of %lld (N %d, bs %u)", mon.nBatchesTotal, nbx, N, ob.bs);
				if (bs && ob.bs != bs) viol("train.bs", "batch size %u instead of %d", ob.bs, int(bs)); if (!bs && ob.bs != N && !(!frd && tdBs.count(ob.bs))) viol("train.bs", "full batch of %u instead of %d", ob.bs, N);
				if (mf && ob.maxF > std::max({ mf, vl(bs) })) viol("train.bs", "evaluation batch %u is bigger than %d", ob.maxF, int(mf));
				if (mon.ph != Mon<T>::idle && !div) viol("train.phase", "training ended in state %d", mon.ph);
			}
			if (imd) { if (nn.is_initialized(1) || [&] { vl one = 1; return cur->is_initialized4inference(one); }()) viol("train.deinit", "still initialised after an immediate deinitialisation"); curTrainBs = 0; } else { if (!nn.is_initialized(ob.bs ? ob.bs : 1, ob.bs)) viol("train.deinit", "not initialised after training"); curTrainBs = ob.bs; }
			if (imd) tdBs.clear(); else { tdBs.insert(ob.bs); if (!ob.started) tdBs.insert(bs ? bs : N); } keep = ws(); haveKeep = true;
		} else if (kind < 80) {
			const int rows = r.in(1, o.maxN + 5); M<T> X(rows, s.nx, true), Y(rows, s.ny); mkXY<T>(r, X, Y, s); const auto x0 = snap(X);
			char b[100]; snprintf(b, sizeof(b), "act %d: fprop of %d", act, rows); note(b);
			const EC ec = nn.fprop(X); reinited("fprop()"); if (ec != EC::Success) viol("net.fprop", "code %d", int(ec));
			else { mon.cmp("net.fprop", "result of fprop()", mon.chain.back(), nn.get_layer_pack().output_layer().get_activations(), mon.out()); if (!same_bits(x0, X.data())) viol("net.fprop", "the data was changed"); }
			ev("net.inference"); if (haveKeep && keep != ws()) viol("train.keep", "inference changed the weights"); keep = ws(); haveKeep = true; curTrainBs = 0;
		} else if (kind < 90) {
			vl bsz = r.in(1, o.maxN); note("fixed batch");
			const EC ec = nn.init4fixedBatchFprop(bsz); reinited("init4fixedBatchFprop()"); if (ec != EC::Success) { viol("net.fixed", "code %d", int(ec)); continue; }
			for (int k = r.in(1, 4); k-- > 0;) { const int rows = r.in(1, bsz); M<T> X(rows, s.nx, true), Y(rows, s.ny); mkXY<T>(r, X, Y, s); nn.doFixedBatchFprop(X); mon.cmp("net.fixed", "result of doFixedBatchFprop()", mon.chain.back(), nn.get_layer_pack().output_layer().get_activations(), mon.out()); ev("net.fixed_inference"); }
			if (haveKeep && keep != ws()) viol("train.keep", "inference changed the weights"); keep = ws(); haveKeep = true; curTrainBs = 0;
		} else if (kind < 94) { note("deinit"); nn.deinit(); mustReinit = -1; if (nn.is_initialized(1)) viol("net.deinit", "initialised after deinit()"); curTrainBs = 0; }
		else { note("require_reinit"); nn.require_reinit(); mustReinit = mon.nInitLayers; if (r.chance(25)) { nn.dont_require_reinit(); mustReinit = -1; } }
	}
	cur->deinit4all(); (void)haveTd2;
}
