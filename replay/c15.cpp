#include "rt.hpp"
#include <thread>
#include <sstream>
#include <random>
#define protected public
#define private public
#include "magnetostatic/simulation.hpp"
#undef protected
#undef private
using namespace rt; using namespace nikfemm;
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    for (int rep = 0; rep < 4000 * scale; rep++) {
        std::vector<MagnetostaticProp> P; int np = g.i(1, 4); std::string in;
        for (int q = 0; q < np; q++) { MagnetostaticProp p{(double)g.i(-3, 3), Vector(g.i(-2, 2), g.i(-2, 2)), g.i(1, 99) * 0.125, {}}; in += " material mu=" + str(p.mu);
            if (g.b()) { int n = g.i(2, 6); double H = g.i(0, 3), B = g.i(0, 2) * 0.5; for (int i = 0; i < n; i++) { p.bh_curve.insert({B, H}); in += " (" + str(B) + "," + str(H) + ")"; B += g.i(1, 4) * 0.25; H += g.i(1, 9) * 2; } }
            P.push_back(p); }
        auto allowed = [&](const MagnetostaticProp& p, double b) { std::vector<BH_Point> v(p.bh_curve.begin(), p.bh_curve.end()); std::vector<double> r; size_t n = v.size(); if (!n) return std::vector<double>{p.mu}; auto sl = [&](size_t i) { return (v[i + 1].B - v[i].B) / (v[i + 1].H - v[i].H); }; if (b <= v[0].B) return std::vector<double>{sl(0)}; if (b >= v[n - 1].B) return std::vector<double>{sl(n - 2)}; for (size_t i = 0; i + 1 < n; i++) r.push_back(sl(i)); return r; };
        for (auto& p : P) { std::vector<double> bs; for (auto& q : p.bh_curve) { bs.push_back(q.B); bs.push_back(q.B + 0.125); } bs.push_back(-1); bs.push_back(0); bs.push_back(100); bs.push_back(g.i(0, 40) * 0.125);
            for (double b : bs) { begin("MagnetostaticProp::getMu", in + " at field " + str(b)); double m = p.getMu(b); bool any = false; for (double w : allowed(p, b)) any |= std::fabs(m - w) <= 1e-12 * std::fabs(w); ok(any, "permeability " + str(m) + " is not the slope of an admissible segment (nor the constant)"); }
            begin("MagnetostaticProp::isLinear", in); ok(p.isLinear() == p.bh_curve.empty(), "linear exactly without a curve"); }
        MagnetostaticProp bad = P[0]; bad.bh_curve = {{1, 2}}; begin("MagnetostaticProp::getMu", "one-point curve"); bool thrown = false; try { bad.getMu(g.i(0, 8) * 0.25); } catch (std::exception&) { thrown = true; } ok(thrown, "a one-point curve is accepted");
        int n = g.i(0, 7); std::vector<Vector> B; std::vector<const MagnetostaticProp*> pr; std::vector<double> mu, old; for (int i = 0; i < n; i++) { double s = g.i(0, 12) * 0.25; B.push_back(Vector(3 * s / 5, -4 * s / 5)); pr.push_back(&P[g.i(0, np - 1)]); mu.push_back(g.i(1, 9) * 0.5); } old = mu;
        double res = g.i(0, 3) ? g.i(0, 50) * 0.5 : 1e3 * g.i(0, 3); uint32_t it = g.i(0, 3) ? g.i(0, 12) : g.i(0, 400);
        in += " residual " + str(res) + " iteration " + std::to_string(it); for (int i = 0; i < n; i++) in += " |B|=" + str(B[i].norm()) + " mu=" + str(mu[i]) + " material " + std::to_string(pr[i] - &P[0]);
        begin("MagnetostaticSimulation::updateMu", in); MagnetostaticSimulation::updateMu(B, pr, mu, res, it); ok((int)mu.size() == n, "number of elements"); double w = std::exp(-(double)it / 5), vac = 4 * 3.14159265358979323846 * 1e-7;
        for (int i = 0; i < n; i++) { if (pr[i]->bh_curve.empty()) { ok(mu[i] == pr[i]->mu, "element " + std::to_string(i) + " without a curve: " + str(mu[i])); continue; } double m = pr[i]->getMu(B[i].norm()), want = (1 - w) * m + w * (old[i] + vac * res * res); near(mu[i], want, "element " + std::to_string(i)); }
    }
    return done();
}
