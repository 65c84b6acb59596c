// compound layers (horizontal, vertical, tiled, optional packs) against the reference
#ifndef PART
#define PART 1 // nets_d.cpp: part 2
#endif
#include "netcommon.h"
template<typename T> using AS = activation::sigm<T, weights_init::XavierFour>;
template<typename T> using FC = LFC<AS<T>, GWN<T>>;
template<typename T> using OUTL = layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, GWN<T>>;
template<typename T> using RF = RFC<T, FC<T>>;
template<typename T> using RO = ROut<T, OUTL<T>>;
template<typename T> void fin(Mon<T>& m, RO<T>& o) { m.setY = [&o](const LM& y) { o.Y = y; }; m.loss = [&o](const LM& a, const LM& y) { return o.loss(a, y); }; }
template<typename T> void regul(R& r, RF<T>& n) { auto& l = n.l; if (r.chance(15)) { n.l2 = r.uni(.001, .1); n.l2b = r.b(); l.get_gradWorks().L2(n.l2, n.l2b); } if (r.chance(10)) { l._setUpdateWeights(false); n.upd = false; } if (r.chance(8)) { l.setIgnoreActivation(true); n.a = r_ident(); n.lr *= T(.05); l.get_gradWorks().learning_rate(n.lr); ev("net.linear_layers"); } }
template<typename T> RF<T> rf(R& r, FC<T>& l, T lr) { RF<T> n(l, r_sigm(), lr); return n; }
template<typename T, typename LP> void go(R& r, LP& lp, std::vector<Node<T>*> ch, RO<T>& ro, const DataSpec& s, int maxN = 30) {
	Mon<T> m; m.setup(ch); fin<T>(m, ro); for (auto n : m.all) if (auto f = dynamic_cast<RF<T>*>(n)) regul<T>(r, *f);
	DriveOpt o; o.maxN = maxN; o.maxEpochs = 3; drive<T>(r, lp, m, s, o);
}
#define IN_ layer_input<NI<T>> inp(nx); RInput<T> ri; const int ny = r.in(1, 4); const T lr = T(r.uni(.02, .2)); OUTL<T> out(ny, lr)
#define NODE(l) RF<T> n_##l(l, r_sigm(), lr)
#define NOUT RO<T> ro(out, OutK::sigm_xe, lr)
#define GO(...) go<T>(r, lp, { &ri, __VA_ARGS__, &ro }, ro, DataSpec{ OutK::sigm_xe, nx, ny })

// horizontal pack right over the input: overlapping fields, an identity layer
template<typename T> void h1(R& r) {
	const int a = r.in(1, 6), b = r.in(1, 6), ov = r.in(0, std::min(a, b)), nx = a + b + 1; IN_; FC<T> f1(r.in(1, 6), lr), f2(r.in(1, 6), lr); LI<NI<T>> li;
	const int li_o = r.in(0, nx - 1), li_n = r.in(1, nx - li_o);
	auto pk = LPH<PHL<FC<T>>, PHL<LI<NI<T>>>, PHL<FC<T>>>(make_PHL(f1, 0, a), make_PHL(li, li_o, li_n), make_PHL(f2, a - ov, b + ov + 1)); auto lp = make_layers(inp, pk, out);
	NODE(f1); NODE(f2); NOUT; RLI<T, decltype(li)> rl(li); RLPH<T, decltype(pk)> rp(pk, { { &n_f1, { 0, a } }, { &rl, { li_o, li_n } }, { &n_f2, { a - ov, b + ov + 1 } } }); seen("h1", ov > 0, li_n == nx, li_o == 0); GO(&rp);
}
// vertical pack with a horizontal one inside
template<typename T> void h2(R& r) {
	const int nx = r.in(1, 8), h = r.in(2, 9), v = r.in(2, 9); IN_; FC<T> f0(h, lr), f1(v, lr), f2(r.in(1, 7), lr), f3(r.in(1, 7), lr); LI<NI<T>> li; const int c = r.in(1, v - 1), e = r.in(0, c);
	auto ph = LPH<PHL<LI<NI<T>>>, PHL<FC<T>>>(make_PHL(li, 0, c), make_PHL(f2, e, v - e)); auto pv = LPV<FC<T>, decltype(ph), FC<T>>(f1, ph, f3); auto lp = make_layers(inp, f0, pv, out);
	NODE(f0); NODE(f1); NODE(f2); NODE(f3); NOUT; RLI<T, decltype(li)> rl(li); RLPH<T, decltype(ph)> rh(ph, { { &rl, { 0, c } }, { &n_f2, { e, v - e } } }); RLPV<T, decltype(pv)> rv_(pv, { &n_f1, &rh, &n_f3 }); seen("h2", e < c); GO(&n_f0, &rv_);
}
// horizontal pack of vertical packs over the input and over a hidden layer
template<typename T, bool hid> void h3(R& r) {
	const int h = r.in(2, 9), nx = hid ? r.in(1, 8) : h; IN_; FC<T> f0(h, lr), a1(r.in(1, 5), lr), a2(r.in(1, 5), lr), b1(r.in(1, 5), lr), b2(r.in(1, 5), lr); const int c = r.in(1, h - 1), e = r.in(0, c);
	LPV<FC<T>, FC<T>> va(a1, a2), vb(b1, b2); auto ph = LPH<PHL<decltype(va)>, PHL<decltype(vb)>>(make_PHL(va, 0, c), make_PHL(vb, e, h - e));
	auto body = [&](auto& lp, bool) { NODE(a1); NODE(a2); NODE(b1); NODE(b2); NOUT; RLPV<T, decltype(va)> ra(va, { &n_a1, &n_a2 }), rb(vb, { &n_b1, &n_b2 }); RLPH<T, decltype(ph)> rh(ph, { { &ra, { 0, c } }, { &rb, { e, h - e } } }); if (hid) { NODE(f0); GO(&n_f0, &rh); } else GO(&rh); };
	seen("h3", hid, e < c); if constexpr (hid) { auto lp = make_layers(inp, f0, ph, out); body(lp, true); } else { auto lp = make_layers(inp, ph, out); body(lp, true); }
}
// tiles: over the input, over a hidden layer, with packs inside
template<typename T, bool hid> void h4(R& r) {
	const int K = r.in(2, 4), m = r.in(1, 5), nx = hid ? r.in(1, 8) : K * m; IN_; FC<T> f0(K*m, lr), f1(r.in(1, 6), lr); LPT<FC<T>> pt(f1, K);
	auto body = [&](auto& lp) { NODE(f1); NOUT; RLPT<T, decltype(pt)> rt(pt, &n_f1, K); if (hid) { NODE(f0); GO(&n_f0, &rt); } else GO(&rt); };
	seen("h4", hid, K); if constexpr (hid) { auto lp = make_layers(inp, f0, pt, out); body(lp); } else { auto lp = make_layers(inp, pt, out); body(lp); }
}
template<typename T> void h5(R& r) {
	const int K = r.in(2, 4), m = r.in(1, 5), nx = r.in(1, 8); IN_; FC<T> f0(K*m, lr), f1(r.in(1, 6), lr), f2(r.in(1, 6), lr), f3(r.in(1, 6), lr); LPV<FC<T>, FC<T>> pv(f1, f2); LPT<decltype(pv)> pt(pv, K); auto lp = make_layers(inp, f0, pt, f3, out);
	NODE(f0); NODE(f1); NODE(f2); NODE(f3); NOUT; RLPV<T, decltype(pv)> rv_(pv, { &n_f1, &n_f2 }); RLPT<T, decltype(pt)> rt(pt, &rv_, K); GO(&n_f0, &rt, &n_f3);
}
template<typename T> void h6(R& r) {// tiles of a horizontal pack
	const int K = r.in(2, 4), m = r.in(2, 5), nx = r.in(1, 8), c = r.in(1, m - 1); IN_; FC<T> f0(K*m, lr), f1(r.in(1, 5), lr), f2(r.in(1, 5), lr); LPH<PHL<FC<T>>, PHL<FC<T>>> ph(make_PHL(f1, 0, c), make_PHL(f2, c, m - c)); LPT<decltype(ph)> pt(ph, K); auto lp = make_layers(inp, f0, pt, out);
	NODE(f0); NODE(f1); NODE(f2); NOUT; RLPH<T, decltype(ph)> rh(ph, { { &n_f1, { 0, c } }, { &n_f2, { c, m - c } } }); RLPT<T, decltype(pt)> rt(pt, &rh, K); GO(&n_f0, &rt);
}
// optional data: gates are input features
template<typename T, bool add> void h7(R& r) {
	const int a = r.in(1, 5), b = r.in(1, 5), nx = 2 + a + b; IN_; FC<T> f1(r.in(1, 5), lr), f2(r.in(1, 5), lr); LIG<500000, NI<T>> g; const bool gl = r.b();
	typedef LPHO<add, PHL<decltype(g)>, PHL<FC<T>>, PHL<FC<T>>> PK; const int go_ = gl ? a + b : 0, o1 = gl ? 0 : 2;
	PK pk(make_PHL(g, go_, 2), make_PHL(f1, o1, a), make_PHL(f2, o1 + a, b)); auto lp = make_layers(inp, pk, out);
	NODE(f1); NODE(f2); NOUT; RLIG<T, decltype(g)> rg(g, .5L); RLPHO<T, PK> rp(pk, add, { { &rg, { go_, 2 } }, { &n_f1, { o1, a } }, { &n_f2, { o1 + a, b } } }, { f1.get_neurons_cnt(), f2.get_neurons_cnt() }); seen("h7", add, gl);
	DataSpec s{ OutK::sigm_xe, nx, ny }; s.gates = true; s.gateCols = { { go_, 2 } }; go<T>(r, lp, { &ri, &rp, &ro }, ro, s);
}
// optional data in the middle of the net: gates go through an identity layer, the optional part is a vertical pack
template<typename T, bool add> void h8(R& r) {
	const int a = r.in(1, 5), nx = 2 + a, h = r.in(2, 6), c = r.in(1, h - 1); IN_; FC<T> f0(h, lr), f1(r.in(1, 5), lr), v1(r.in(1, 5), lr), v2(r.in(1, 5), lr), f3(r.in(1, 5), lr); LI<NI<T>> li; LIGFI<NI<T>> g;
	LPH<PHL<LI<NI<T>>>, PHL<FC<T>>> ph(make_PHL(li, 0, 2), make_PHL(f0, 2, a)); LPV<FC<T>, FC<T>> pv(v1, v2); typedef LPHO<add, PHL<decltype(g)>, PHL<FC<T>>, PHL<decltype(pv)>> PK;
	PK pk(make_PHL(g, 0, 2), make_PHL(f1, 2, c), make_PHL(pv, 2 + c, h - c)); auto lp = make_layers(inp, ph, pk, f3, out);
	NODE(f0); NODE(f1); NODE(v1); NODE(v2); NODE(f3); NOUT; RLI<T, decltype(li)> rl(li); RLIG<T, decltype(g)> rg(g, -1); RLPH<T, decltype(ph)> rh(ph, { { &rl, { 0, 2 } }, { &n_f0, { 2, a } } }); RLPV<T, decltype(pv)> rv_(pv, { &n_v1, &n_v2 });
	RLPHO<T, PK> rp(pk, add, { { &rg, { 0, 2 } }, { &n_f1, { 2, c } }, { &rv_, { 2 + c, h - c } } }, { f1.get_neurons_cnt(), v2.get_neurons_cnt() });
	DataSpec s{ OutK::sigm_xe, nx, ny }; s.gates = true; s.gateCols = { { 0, 2 } }; go<T>(r, lp, { &ri, &rh, &rp, &n_f3, &ro }, ro, s);
}
// optional data within optional data, inside of a horizontal pack
template<typename T> void h9(R& r) {
	const int a = r.in(1, 4), b = r.in(1, 4), c = r.in(1, 4), nx = 1 + 1 + a + b + c; IN_; FC<T> f1(r.in(1, 4), lr), f2(r.in(1, 4), lr), f3(r.in(1, 4), lr); LIG<500000, NI<T>> g1, g2;
	typedef LPHO<false, PHL<decltype(g2)>, PHL<FC<T>>> PI; PI pi(make_PHL(g2, 0, 1), make_PHL(f1, 1, a)); typedef LPHO<true, PHL<decltype(g1)>, PHL<PI>> PO; PO po(make_PHL(g1, 0, 1), make_PHL(pi, 1, 1 + a));
	typedef LPH<PHL<PO>, PHL<FC<T>>, PHL<FC<T>>> PK; PK pk(make_PHL(po, 0, 2 + a), make_PHL(f2, 2 + a, b), make_PHL(f3, 2 + a, b + c)); auto lp = make_layers(inp, pk, out);
	NODE(f1); NODE(f2); NODE(f3); NOUT; RLIG<T, decltype(g1)> r1(g1, .5L), r2(g2, .5L); RLPHO<T, PI> rpi(pi, false, { { &r2, { 0, 1 } }, { &n_f1, { 1, a } } }, { f1.get_neurons_cnt() });
	RLPHO<T, PO> rpo(po, true, { { &r1, { 0, 1 } }, { &rpi, { 1, 1 + a } } }, { pi.get_neurons_cnt() }); RLPH<T, PK> rk(pk, { { &rpo, { 0, 2 + a } }, { &n_f2, { 2 + a, b } }, { &n_f3, { 2 + a, b + c } } });
	DataSpec s{ OutK::sigm_xe, nx, ny }; s.gates = true; s.gateCols = { { 0, 2 } }; go<T>(r, lp, { &ri, &rk, &ro }, ro, s);
}
// packs in packs: inner packs return the derivative in either of the two matrices, depending on their depth
template<typename T> void h10(R& r) {
	const int nx = r.in(1, 8), K = r.in(2, 3), m = r.in(1, 3); IN_; FC<T> f0(r.in(1, 8), lr), f1(r.in(1, 6), lr), f2(K*K*m, lr), f3(r.in(1, 4), lr), f4(r.in(1, 5), lr); LPV<FC<T>, FC<T>> pi(f1, f2); LPT<FC<T>> ti(f3, K); LPT<decltype(ti)> to(ti, K); LPV<decltype(pi), decltype(to), FC<T>> pv(pi, to, f4); auto lp = make_layers(inp, f0, pv, out);
	NODE(f0); NODE(f1); NODE(f2); NODE(f3); NODE(f4); NOUT; RLPV<T, decltype(pi)> rpi(pi, { &n_f1, &n_f2 }); RLPT<T, decltype(ti)> rti(ti, &n_f3, K); RLPT<T, decltype(to)> rto(to, &rti, K); RLPV<T, decltype(pv)> rpv(pv, { &rpi, &rto, &n_f4 }); seen("h10", K); GO(&n_f0, &rpv);
}
template<typename T> void h11(R& r) {
	const int nx = r.in(1, 8), K = r.in(2, 4), m = r.in(1, 4); IN_; FC<T> f0(K*m, lr), f1(r.in(1, 5), lr), f2(r.in(1, 6), lr), f3(r.in(1, 6), lr), f4(r.in(1, 6), lr); LPT<FC<T>> pt(f1, K); LPV<FC<T>, FC<T>> pu(f3, f4); LPV<decltype(pt), FC<T>, decltype(pu)> pv(pt, f2, pu); auto lp = make_layers(inp, f0, pv, out);
	NODE(f0); NODE(f1); NODE(f2); NODE(f3); NODE(f4); NOUT; RLPT<T, decltype(pt)> rt(pt, &n_f1, K); RLPV<T, decltype(pu)> ru(pu, { &n_f3, &n_f4 }); RLPV<T, decltype(pv)> rv_(pv, { &rt, &n_f2, &ru }); seen("h11", K); GO(&n_f0, &rv_);
}
template<typename T> void all(const std::string& nm, int n) {
	auto G = [&](const char* s, int k, void(*f)(R&)) { group((nm + s).c_str(), k, [f](R& r, int) { f(r); }); };
#if PART == 1
	G("h1", n, h1<T>); G("h2", n, h2<T>); G("h3i", n / 2, h3<T, false>); G("h3", n / 2, h3<T, true>); G("h4i", n / 2, h4<T, false>); G("h4", n / 2, h4<T, true>); G("h5", n, h5<T>); G("h6", n, h6<T>);
#else
	G("h7", n, h7<T, true>); G("h7n", n, h7<T, false>); G("h8", n, h8<T, true>); G("h8n", n, h8<T, false>); G("h9", n, h9<T>); G("h10", n, h10<T>); G("h11", n, h11<T>);
#endif
}
int main(int argc, char** argv) { init(argc, argv); for (unsigned hc : { 2u, 5u }) { g_hc = hc; all<double>("d" + std::to_string(hc), 10); all<float>("f" + std::to_string(hc), 8); } return done(); }
