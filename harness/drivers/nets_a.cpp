// plain layer stacks against the reference
#include "netcommon.h"
template<typename T> struct OutOf;
template<typename T, typename L> void fin(Mon<T>& m, ROut<T, L>& o) { m.setY = [&o](const LM& y) { o.Y = y; }; m.loss = [&o](const LM& a, const LM& y) { return o.loss(a, y); }; }
// a layer told to skip its activation is a linear one
template<typename T, typename L> void linear(R& r, RFC<T, L>& n, L& l) { if (r.chance(12)) { l.setIgnoreActivation(true); n.a = r_ident(); n.lr *= T(.05); l.get_gradWorks().learning_rate(n.lr); ev("net.linear_layers"); } if (l.bIgnoreActivation() && n.a.f(ld(-.7)) != ld(-.7)) viol("net.linear", "flag set by itself"); }
template<typename T, typename L> void linear(R& r, ROut<T, L>& n, L& l) { if ((n.k == OutK::sigm_q || n.k == OutK::ident_q) && r.chance(15)) { l.setIgnoreActivation(true); if (n.k == OutK::sigm_q) { n.lr *= T(.2); l.get_gradWorks().learning_rate(n.lr); } n.k = OutK::ident_q; ev("net.linear_outputs"); } }
template<typename N, typename L> void regul(R& r, N& n, L& l) { if (r.chance(25)) { n.l1 = r.uni(.001, .05); n.l1b = r.b(); l.get_gradWorks().L1(n.l1, n.l1b); } if (r.chance(25)) { n.l2 = r.uni(.001, .1); n.l2b = r.b(); l.get_gradWorks().L2(n.l2, n.l2b); } if (r.chance(12)) { l._setUpdateWeights(false); n.upd = false; } linear(r, n, l); }
template<typename N, typename L> void clampd(R& r, N& n, L& l) { if (r.chance(25)) { n.lo = (typename L::real_t)r.uni(-.4, -.05); n.hi = (typename L::real_t)r.uni(.05, .4); l.restrict_dL_dZ((typename L::real_t)n.lo, (typename L::real_t)n.hi); } }

template<typename T> void s1(R& r) {
	typedef activation::sigm<T, weights_init::XavierFour> A; const int nx = r.in(1, 12), h = r.in(1, 15), ny = r.in(1, 5); const T lr = T(r.uni(.02, .3)), lr2 = T(r.uni(.02, .3));
	layer_input<NI<T>> inp(nx); LFC<A, GWN<T>> fc(h, lr); layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, GWN<T>> out(ny, lr2); auto lp = make_layers(inp, fc, out);
	RInput<T> ri; RFC<T, decltype(fc)> rf(fc, r_sigm(), lr); ROut<T, decltype(out)> ro(out, OutK::sigm_xe, lr2); regul(r, rf, fc); regul(r, ro, out); clampd(r, ro, out);
	Mon<T> m; m.setup({ &ri, &rf, &ro }); fin(m, ro); drive<T>(r, lp, m, DataSpec{ OutK::sigm_xe, nx, ny });
}
template<typename T> void s2(R& r) {
	using namespace activation; const int nx = r.in(1, 12), ny = r.in(2, 6), h1 = r.in(1, 15), h2 = r.in(1, 15), h3 = r.in(1, 15); const T lr = T(r.uni(.003, .03));
	layer_input<NI<T>> inp(nx); LFC<softsign_uc_ua<T>, GWN<T>> f1(h1, lr); LFC<elu_ua<T>, GWN<T>> f2("named", h2, lr); LFC<identity<T>, GWN<T>> f3(h3, lr); layer_output<sigm_xentropy_loss<T, weights_init::XavierFour>, GWN<T>> out(ny, lr); auto lp = make_layers(inp, f1, f2, f3, out);
	RInput<T> ri; RFC<T, decltype(f1)> r1(f1, r_softsign(), lr); RFC<T, decltype(f2)> r2(f2, r_elu(), lr); RFC<T, decltype(f3)> r3(f3, r_ident(), lr); ROut<T, decltype(out)> ro(out, OutK::sigm_xe, lr);
	regul(r, r1, f1); regul(r, r2, f2); regul(r, r3, f3); regul(r, ro, out); clampd(r, ro, out);
	Mon<T> m; m.setup({ &ri, &r1, &r2, &r3, &ro }); fin(m, ro); drive<T>(r, lp, m, DataSpec{ OutK::sigm_xe, nx, ny });
}
template<typename T> void s3(R& r) {// no hidden layers
	const int nx = r.in(1, 20), ny = r.in(1, 6); const T lr = T(r.uni(.01, .08));
	layer_input<NI<T>> inp(nx); layer_output<activation::identity_quad_loss<T>, GWN<T>> out(ny, lr); auto lp = make_layers(inp, out);
	RInput<T> ri; ROut<T, decltype(out)> ro(out, OutK::ident_q, lr); regul(r, ro, out); clampd(r, ro, out);
	Mon<T> m; m.setup({ &ri, &ro }); fin(m, ro); drive<T>(r, lp, m, DataSpec{ OutK::ident_q, nx, ny });
}
template<typename T> void s4(R& r) {// activations with kinks: double only
	using namespace activation; const int nx = r.in(1, 12), ny = r.in(1, 6), h1 = r.in(1, 15), h2 = r.in(1, 15), h3 = r.in(1, 15); const T lr = T(r.uni(.003, .03));
	layer_input<NI<T>> inp(nx); LFC<relu<T>, GWN<T>> f1(h1, lr); LFC<leaky_relu_100<T>, GWN<T>> f2(h2, lr); LFC<selu<T>, GWN<T>> f3(h3, lr); layer_output<sigm_quad_loss<T, weights_init::XavierFour>, GWN<T>> out(ny, lr); auto lp = make_layers(inp, f1, f2, f3, out);
	RInput<T> ri; RFC<T, decltype(f1)> r1(f1, r_relu(), lr); RFC<T, decltype(f2)> r2(f2, r_relu(.01L), lr); RFC<T, decltype(f3)> r3(f3, r_selu(), lr); ROut<T, decltype(out)> ro(out, OutK::sigm_q, lr);
	regul(r, r1, f1); regul(r, r2, f2); regul(r, r3, f3); clampd(r, ro, out);
	Mon<T> m; m.setup({ &ri, &r1, &r2, &r3, &ro }); fin(m, ro); drive<T>(r, lp, m, DataSpec{ OutK::sigm_q, nx, ny });
}
template<typename T> void big(R& r) {// sizes that go through the multi-threaded code
	typedef activation::sigm<T, weights_init::XavierFour> A; const int nx = r.in(60, 130), h = r.in(60, 150), ny = r.in(1, 12); const T lr = T(.05);
	layer_input<NI<T>> inp(nx); LFC<A, GWN<T>> fc(h, lr); layer_output<activation::sigm_xentropy_loss<T, weights_init::XavierFour>, GWN<T>> out(ny + 1, lr); auto lp = make_layers(inp, fc, out);
	RInput<T> ri; RFC<T, decltype(fc)> rf(fc, r_sigm(), lr); ROut<T, decltype(out)> ro(out, OutK::sigm_xe, lr);
	Mon<T> m; m.setup({ &ri, &rf, &ro }); fin(m, ro); DriveOpt o; o.actions = 2; o.maxN = 150; o.maxEpochs = 1; o.infFirst = false; drive<T>(r, lp, m, DataSpec{ OutK::sigm_xe, nx, ny + 1 }, o);
}
int main(int argc, char** argv) {
	init(argc, argv);
	for (unsigned hc : { 2u, 5u }) {
		g_hc = hc; auto nm = [&](const char* s) { return std::string(s) + std::to_string(hc); };
		group(nm("xent.d").c_str(), 30, [](R& r, int) { s1<double>(r); }); group(nm("xent.f").c_str(), 30, [](R& r, int) { s1<float>(r); });
		group(nm("deep.d").c_str(), 30, [](R& r, int) { s2<double>(r); }); group(nm("deep.f").c_str(), 30, [](R& r, int) { s2<float>(r); });
		group(nm("lin.d").c_str(), 20, [](R& r, int) { s3<double>(r); }); group(nm("lin.f").c_str(), 20, [](R& r, int) { s3<float>(r); });
		group(nm("kink.d").c_str(), 30, [](R& r, int) { s4<double>(r); });
		group(nm("big.d").c_str(), 2, [](R& r, int) { big<double>(r); }); group(nm("big.f").c_str(), 2, [](R& r, int) { big<float>(r); });
	}
	return done();
}
