// layers with penalised activations and dropout against the reference
#include "netcommon.h"
#include "nntl/loss_addendum/L1.h"
#include "nntl/loss_addendum/L2.h"
#include "nntl/loss_addendum/DeCov.h"
namespace la = nntl::loss_addendum;
template<typename T> using AS = activation::sigm<T, weights_init::XavierFour>;
template<typename T> using AE = activation::elu_ua<T>;
template<typename T> using FC = LFC<AS<T>, GWN<T>>;
template<typename T> using OUTL = layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, GWN<T>>;
template<typename T> using RO = ROut<T, OUTL<T>>;
template<typename T, typename L> using RF = RFC<T, L>;
template<typename T> void fin(Mon<T>& m, RO<T>& o) { m.setY = [&o](const LM& y) { o.Y = y; }; m.loss = [&o](const LM& a, const LM& y) { return o.loss(a, y); }; }
typedef std::vector<std::function<void()>> Tw;
template<typename T> void setp(Node<T>& n, T v) {
	n.p = v == 0 ? T(1) : v;
	if (n.dk == 2 && n.p < 1) {// Klambauer et al., 2017
		const ld al = 1.6732632423543772848170429916717L * 1.0507009873554804934193349852946L, p = n.p, q = 1 - p; n.da = 1 / std::sqrt(p + p * q*al*al); n.db = n.da*q*al; n.dd = -n.da*al + n.db;
	}
}
template<typename T, typename LP> void go(R& r, LP& lp, std::vector<Node<T>*> ch, RO<T>& ro, const DataSpec& s, Tw tw, bool gatedPen = false, int maxN = 30) {
	Mon<T> m; m.setup(ch); fin<T>(m, ro); DriveOpt o; o.maxN = maxN; o.maxEpochs = 4; o.actions = 5; o.reenter = 15; o.gatedPen = gatedPen; bool first = true; o.tweak = [&] { for (auto& f : tw) if (first || r.chance(40)) f(); first = false; if (r.chance(12)) { const T v = r.chance(30) ? T(1) : r.chance(13) ? T(0) : T(r.uni(.1, .95)); lp.for_each_layer(hlpr_layer_set_dropoutPercentActive<T>(v)); for (auto n : m.all) if (n->dk) setp<T>(*n, v); ev("drop.helper"); } }; drive<T>(r, lp, m, s, o);
}
// random strength of the dropout; off, on and changes of it are part of the history
template<typename T, typename L> std::function<void()> dropTw(R& r, Node<T>& n, L& l, int kind = 1) {
	n.dk = kind; return [&r, &n, &l, kind] {
		const T v = r.chance(25) ? T(1) : r.chance(13) ? T(0) : T(r.uni(.1, .95)); l.dropoutPercentActive(v); setp<T>(n, v); seen("dropout", kind, n.p < 1, int(n.p * 5)); ev(n.p < 1 ? "drop.on" : "drop.off");
		if (l.bDropout() != (n.p < 1)) viol("drop.p", "bDropout() is %d for p %g", l.bDropout(), (double)n.p);
	};
}
template<typename T, size_t I, typename L> std::function<void()> penTw(R& r, Node<T>& n, L& l, int k, bool nz) {
	const size_t at = n.pens.size(); n.pens.push_back({ k, nz, T(0) }); return [&r, &n, &l, at, k] { const T s = r.chance(25) ? T(0) : T(r.uni(.001, .3)); l.template addendum<I>().scale(s); n.pens[at].s = s; seen("penalty", k, n.pens[at].nz, s != 0); ev(s != 0 ? "pen.on" : "pen.off"); };
}
#define IN_ layer_input<NI<T>> inp(nx); RInput<T> ri; const int ny = r.in(1, 4); const T lr = T(r.uni(.02, .2)); OUTL<T> out(ny, lr)
#define ND(l, act) RF<T, decltype(l)> n_##l(l, act, lr)
#define NOUT RO<T> ro(out, OutK::sigm_xe, lr)
#define DS DataSpec{ OutK::sigm_xe, nx, ny }

template<typename T> void c1(R& r) {// penalties of plain layers
	const int nx = r.in(1, 8); IN_; typedef LFC_PA<std::tuple<la::L1<T>, la::L2<T>>, AS<T>, GWN<T>> A; typedef LFC_PA<std::tuple<la::DeCov<T>, la::L2<T, true>>, AS<T>, GWN<T>> B; typedef LFC_PA<std::tuple<la::DeCov<T, true, true, true>, la::L1<T, true>>, AS<T>, GWN<T>> C;
	A a(r.in(1, 9), lr); B b(r.in(2, 9), lr); C c(r.in(2, 9), lr); auto lp = make_layers(inp, a, b, c, out); ND(a, r_sigm()); ND(b, r_sigm()); ND(c, r_sigm()); NOUT;
	Tw t{ penTw<T, 0>(r, n_a, a, 0, false), penTw<T, 1>(r, n_a, a, 1, false), penTw<T, 0>(r, n_b, b, 2, false), penTw<T, 1>(r, n_b, b, 1, false), penTw<T, 0>(r, n_c, c, 2, false), penTw<T, 1>(r, n_c, c, 0, false) }; go<T>(r, lp, { &ri, &n_a, &n_b, &n_c, &ro }, ro, DS, t);
}
template<typename T> void c2(R& r) {// dropout of plain layers
	const int nx = r.in(1, 8); IN_; typedef LFC_DO<AS<T>, GWN<T>, Dropout<T>> D; D a(r.in(1, 12), lr), b(r.in(1, 12), lr); FC<T> f(r.in(1, 6), lr); auto lp = make_layers(inp, a, f, b, out);
	ND(a, r_sigm()); ND(b, r_sigm()); ND(f, r_sigm()); NOUT; Tw t{ dropTw<T>(r, n_a, a), dropTw<T>(r, n_b, b) }; go<T>(r, lp, { &ri, &n_a, &n_f, &n_b, &ro }, ro, DS, t);
}
template<typename T> void c3(R& r) {// both; penalties that leave dropped neurons alone
	const int nx = r.in(1, 8); IN_; typedef LFC_PA_DO<std::tuple<la::L2<T, false, true>, la::DeCov<T, true, false, true, true>>, AS<T>, GWN<T>, Dropout<T>> A; typedef LFC_PA_DO<std::tuple<la::L1<T, true, true>, la::DeCov<T, false, true>, la::L2<T, true>>, AS<T>, GWN<T>, Dropout<T>> B;
	A a(r.in(2, 9), lr); B b(r.in(2, 9), lr); auto lp = make_layers(inp, a, b, out); ND(a, r_sigm()); ND(b, r_sigm()); NOUT;
	Tw t{ penTw<T, 0>(r, n_a, a, 1, true), penTw<T, 1>(r, n_a, a, 2, true), penTw<T, 0>(r, n_b, b, 0, true), penTw<T, 1>(r, n_b, b, 2, false), penTw<T, 2>(r, n_b, b, 1, false), dropTw<T>(r, n_a, a), dropTw<T>(r, n_b, b) }; go<T>(r, lp, { &ri, &n_a, &n_b, &ro }, ro, DS, t);
}
template<typename T> void c4(R& r) {// alpha dropout, signed activations (double only)
	const int nx = r.in(1, 8); IN_; typedef LFC_PA_DO<std::tuple<la::L1<T>, la::L2<T, true, true>>, activation::selu<T>, GWN<T>, AlphaDropout<T>> A; typedef LFC_DO<activation::selu<T>, GWN<T>, AlphaDropout<T>> B;
	A a(r.in(1, 9), lr / 4); B b(r.in(1, 9), lr / 4); auto lp = make_layers(inp, a, b, out); ND(a, r_selu()); ND(b, r_selu()); n_a.lr = n_b.lr = lr / 4; NOUT; Tw t{ penTw<T, 0>(r, n_a, a, 0, false), penTw<T, 1>(r, n_a, a, 1, true), dropTw<T>(r, n_a, a, 2), dropTw<T>(r, n_b, b, 2) }; go<T>(r, lp, { &ri, &n_a, &n_b, &ro }, ro, DS, t);
}
template<typename T> void c5(R& r) {// horizontal pack with its own dropout and penalties, and with dropout inside
	const int h = r.in(2, 8), nx = r.in(1, 6), c = r.in(1, h - 1); IN_; FC<T> f0(h, lr), f2(r.in(1, 6), lr); typedef LFC_DO<AS<T>, GWN<T>, Dropout<T>> D; D d(r.in(1, 6), lr); FC<T> e(r.in(1, 6), lr), e2(r.in(1, 6), lr);
	typedef LPH_DO<Dropout<T>, PHL<FC<T>>, PHL<FC<T>>> PD; typedef LPH_PA<std::tuple<la::DeCov<T>, la::L1<T, true>>, PHL<PD>, PHL<D>> PP; PD pd("pd", make_PHL(e, 0, c), make_PHL(e2, 0, h)); PP pp("pp", make_PHL(pd, 0, h), make_PHL(d, c, h - c)); auto lp = make_layers(inp, f0, pp, f2, out);
	ND(f0, r_sigm()); ND(f2, r_sigm()); ND(d, r_sigm()); ND(e, r_sigm()); ND(e2, r_sigm()); NOUT; RLPH<T, PD> rpd(pd, { { &n_e, { 0, c } }, { &n_e2, { 0, h } } }); RLPH<T, PP> rpp(pp, { { &rpd, { 0, h } }, { &n_d, { c, h - c } } });
	Tw t{ dropTw<T>(r, n_d, d), dropTw<T>(r, rpd, pd), penTw<T, 0>(r, rpp, pp, 2, false), penTw<T, 1>(r, rpp, pp, 0, false) }; go<T>(r, lp, { &ri, &n_f0, &rpp, &n_f2, &ro }, ro, DS, t);
}
template<typename T> void c6(R& r) {// tiles with dropout inside
	const int K = r.in(2, 4), m = r.in(1, 4), nx = r.in(1, 6); IN_; typedef LFC_DO<AS<T>, GWN<T>, Dropout<T>> D; D f0(K*m, lr), d(r.in(1, 6), lr); LPT<D> pt(d, K); FC<T> f2(r.in(1, 6), lr); auto lp = make_layers(inp, f0, pt, f2, out);
	ND(f0, r_sigm()); ND(d, r_sigm()); ND(f2, r_sigm()); NOUT; RLPT<T, decltype(pt)> rt(pt, &n_d, K); Tw t{ dropTw<T>(r, n_f0, f0), dropTw<T>(r, n_d, d) }; go<T>(r, lp, { &ri, &n_f0, &rt, &n_f2, &ro }, ro, DS, t);
}
template<typename T, bool add> void c7(R& r) {// optional data with dropout and penalties over and inside of it
	const int a = r.in(1, 5), b = r.in(1, 5), nx = 2 + a + b; IN_; typedef LFC_DO<AS<T>, GWN<T>, Dropout<T>> D; D f1(r.in(1, 5), lr); typedef LFC_PA_DO<std::tuple<la::L2<T, true, true>>, AS<T>, GWN<T>, Dropout<T>> E; E f2(r.in(1, 5), lr); LIG<500000, NI<T>> g; FC<T> up(r.in(1, 5), lr);
	typedef LPHO_PA_DO<std::tuple<la::L1<T, true>, la::L2<T>, la::DeCov<T>>, Dropout<T>, add, PHL<decltype(g)>, PHL<D>, PHL<E>> PK; PK pk("pk", std::make_tuple(make_PHL(g, 0, 2), make_PHL(f1, 2, a), make_PHL(f2, 2 + a, b))); auto lp = make_layers(inp, pk, up, out);
	ND(f1, r_sigm()); ND(f2, r_sigm()); ND(up, r_sigm()); NOUT; RLIG<T, decltype(g)> rg(g, .5L); RLPHO<T, PK> rp(pk, add, { { &rg, { 0, 2 } }, { &n_f1, { 2, a } }, { &n_f2, { 2 + a, b } } }, { f1.get_neurons_cnt(), f2.get_neurons_cnt() }); rp.gateCols = 2 * (1 + add);
	Tw t{ dropTw<T>(r, n_f1, f1), dropTw<T>(r, n_f2, f2), penTw<T, 0>(r, n_f2, f2, 1, true), dropTw<T>(r, rp, pk), penTw<T, 0>(r, rp, pk, 0, false), penTw<T, 1>(r, rp, pk, 1, false), penTw<T, 2>(r, rp, pk, 2, false) };
	DataSpec s{ OutK::sigm_xe, nx, ny }; s.gates = true; s.gateCols = { { 0, 2 } }; go<T>(r, lp, { &ri, &rp, &n_up, &ro }, ro, s, t, true);
}
template<typename T> void big(R& r) {
	const int nx = r.in(20, 60); IN_; typedef LFC_PA_DO<std::tuple<la::L2<T>, la::DeCov<T>>, AS<T>, GWN<T>, Dropout<T>> A; A a(r.in(60, 120), lr); auto lp = make_layers(inp, a, out); ND(a, r_sigm()); NOUT; Tw t{ penTw<T, 0>(r, n_a, a, 1, false), penTw<T, 1>(r, n_a, a, 2, false), dropTw<T>(r, n_a, a) }; go<T>(r, lp, { &ri, &n_a, &ro }, ro, DS, t, false, 120);
}
template<typename T> void all(const std::string& nm, int n) {
	auto G = [&](const char* s, int k, void(*f)(R&)) { group((nm + s).c_str(), k, [f](R& r, int) { f(r); }); };
	G("c1", n, c1<T>); G("c2", n, c2<T>); G("c3", n, c3<T>); if (sizeof(T) == 8) G("c4", 2 * n, c4<double>); G("c5", n, c5<T>); G("c6", n, c6<T>); G("c7", n, c7<T, true>); G("c7n", n, c7<T, false>); G("big", 2, big<T>);
}
template<typename T> void stat() { const auto& s = MonInsp<T>::dropStat(); if (s[2] > 1000 && std::fabs(s[0] - s[1]) > 7 * std::sqrt(s[2])) viol("drop.rate", "%.0Lf of the activations were kept, %.0Lf expected (sigma %.0Lf)", s[0], s[1], std::sqrt(s[2])); }
int main(int argc, char** argv) { init(argc, argv); for (unsigned hc : { 2u, 5u }) { g_hc = hc; all<double>("d" + std::to_string(hc), 28); all<float>("f" + std::to_string(hc), 20); } stat<double>(); stat<float>(); return done(); }
