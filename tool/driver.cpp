// Analysis driver: names every public entry point so that all class templates
// are instantiated for the shipped (int, double) types.  Never linked or run.
#include <printemps.h>
namespace verif_driver {
using printemps::model::IPModel;
void touch() {
    printemps::option::Option option;
    IPModel model("m");
    auto &x = model.create_variables("x", 3, 0, 1);
    auto &e = model.create_expressions("e", 3);
    auto &c = model.create_constraint("c", x.sum() <= 1);
    (void)e; (void)c;
    model.minimize(x.sum());
    printemps::solver::IPSolver solver;
    solver.setup(&model, option);
    auto r = solver.solve();
    (void)r;
    auto r2 = printemps::solver::solve(&model);
    (void)r2;
}
}  // namespace verif_driver

// every operator of the modelling language, over every kind of operand
namespace verif_operators {
using E = printemps::model_component::IPExpression;
using V = printemps::model_component::IPVariable;
using VP = printemps::model_component::IPVariableProxy;
using EP = printemps::model_component::IPExpressionProxy;
using MI = std::vector<int>;

template <class T>
void with_value(const T &a, int i, double d) {
    (void)(a + i), (void)(a + d), (void)(i + a), (void)(d + a);
    (void)(a - i), (void)(a - d), (void)(i - a), (void)(d - a);
    (void)(a * i), (void)(a * d), (void)(i * a), (void)(d * a);
    (void)(a / i), (void)(a / d);
    (void)(+a), (void)(-a);
    (void)(a <= i), (void)(a <= d), (void)(i <= a), (void)(d <= a);
    (void)(a == i), (void)(a == d), (void)(i == a), (void)(d == a);
    (void)(a >= i), (void)(a >= d), (void)(i >= a), (void)(d >= a);
}

template <class T, class U>
void with_other(const T &a, const U &b) {
    (void)(a + b), (void)(a - b), (void)(a <= b), (void)(a == b), (void)(a >= b);
}

template <class T>
void assign(T &t, const E &e, const V &v, const VP &vp, const EP &ep, int i, double d) {
    t = i; t = d; t = e; t = v; t = vp; t = ep;
    t += i; t += d; t += e; t += v; t += vp; t += ep;
    t -= i; t -= d; t -= e; t -= v; t -= vp; t -= ep;
    t *= i; t *= d; t /= i; t /= d;
}

void touch(E &e, V &v, VP &vp, EP &ep, const MI &mi, const std::vector<double> &w, const std::vector<int> &iw) {
    with_value(e, 1, 1.0), with_value(v, 1, 1.0), with_value(vp, 1, 1.0), with_value(ep, 1, 1.0);
    with_other(e, e), with_other(e, v), with_other(e, vp), with_other(e, ep);
    with_other(v, e), with_other(v, v), with_other(v, vp), with_other(v, ep);
    with_other(vp, e), with_other(vp, v), with_other(vp, vp), with_other(vp, ep);
    with_other(ep, e), with_other(ep, v), with_other(ep, vp), with_other(ep, ep);
    assign(e, e, v, vp, ep, 1, 1.0);
    assign(ep, e, v, vp, ep, 1, 1.0);
    (void)vp.sum(), (void)vp.sum(mi), (void)vp.dot(w), (void)vp.dot(iw), (void)vp.dot(mi, w);
    (void)ep.sum(), (void)ep.sum(mi), (void)ep.dot(w), (void)ep.dot(mi, w);
    (void)vp.selection(), (void)vp.selection(mi);
    printemps::model::IPModel m;
    m.minimize(e), m.minimize(v), m.minimize(vp), m.minimize(ep);
    m.maximize(e), m.maximize(v), m.maximize(vp), m.maximize(ep);
}
}  // namespace verif_operators
