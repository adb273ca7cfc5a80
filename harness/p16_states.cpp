// Histories of stored states, convergence bookkeeping of the nonlinear solver, restart files, and reductions.
#include "plato.hpp"
#include <cassert>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <unistd.h>
#include <sys/stat.h>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_RCP.hpp>
#include "BLAS1.hpp"
#include "NewtonRaphsonUtilities.hpp"
#include "alg/ParallelComm.hpp"
#include "HDF5IO.hpp"
using namespace h;
struct Model { std::map<std::string, double> a; std::map<std::string, dvec> b; std::map<std::string, dmat> c; std::map<std::string, std::vector<dmat>> d; };
static void same(const Plato::DataMap& m, const Model& r, const std::string& what) {
    REQ(m.mScalarValues.size() == r.a.size() && m.scalarVectors.size() == r.b.size() && m.scalarMultiVectors.size() == r.c.size() && m.scalarArray3Ds.size() == r.d.size(), what << ": number of entries");
    for (auto& p : r.a) { REQ(m.mScalarValues.count(p.first), what << ": scalar " << p.first); REQ(m.mScalarValues.at(p.first) == p.second, what << ": scalar " << p.first << " is " << m.mScalarValues.at(p.first) << " instead of " << p.second); }
    for (auto& p : r.b) { REQ(m.scalarVectors.count(p.first), what << ": vector " << p.first); auto v = m.scalarVectors.at(p.first); REQ(v.extent(0) == p.second.size(), what << ": length of vector " << p.first); for (size_t i = 0; i < p.second.size(); ++i) REQ(v(i) == p.second[i], what << ": vector " << p.first << " entry " << i << " is " << v(i) << " instead of " << p.second[i]); }
    for (auto& p : r.c) { REQ(m.scalarMultiVectors.count(p.first), what << ": multivector " << p.first); auto v = m.scalarMultiVectors.at(p.first); REQ(v.extent(0) == p.second.size() && v.extent(1) == p.second[0].size(), what << ": shape of multivector " << p.first); for (size_t i = 0; i < p.second.size(); ++i) for (size_t j = 0; j < p.second[0].size(); ++j) REQ(v(i, j) == p.second[i][j], what << ": multivector " << p.first << " entry " << i << "," << j); }
    for (auto& p : r.d) { REQ(m.scalarArray3Ds.count(p.first), what << ": array " << p.first); auto v = m.scalarArray3Ds.at(p.first); for (size_t i = 0; i < p.second.size(); ++i) for (size_t j = 0; j < p.second[0].size(); ++j) for (size_t k = 0; k < p.second[0][0].size(); ++k) REQ(v(i, j, k) == p.second[i][j][k], what << ": array " << p.first << " entry " << i << "," << j << "," << k); }
}
PBT("state_history", 600, "a state is saved and an entry changed afterwards") {
    Plato::DataMap m; Model cur; std::vector<Model> saved; const std::vector<std::string> names{"stress", "strain", "p"}; int n = s.len(1, 14); bool change = false; s.desc << "history:";
    for (int k = 0; k < n; ++k) {
        int op = s.intIn(0, 6); auto nm = s.pick(names);
        if (op == 0) { double v = s.sreal(9); m.mScalarValues[nm] = v; cur.a[nm] = v; s.desc << " scalar " << nm; change |= !saved.empty(); }
        else if (op <= 3) {
            // in place when it exists and the flag says so, otherwise a new container
            bool inPlace = s.flag(); int r = s.intIn(1, 4), c = s.intIn(1, 3), t = s.intIn(1, 3); change |= !saved.empty(); s.desc << (inPlace ? " overwrite " : " set ") << "vma"[op - 1] << " " << nm;
            if (op == 1) { auto& q = cur.b[nm]; bool have = m.scalarVectors.count(nm); if (!(inPlace && have)) { m.scalarVectors[nm] = V1("x", r); q.assign(r, 0); } auto v = m.scalarVectors[nm]; for (size_t i = 0; i < q.size(); ++i) v(i) = q[i] = s.sreal(5); }
            if (op == 2) { auto& q = cur.c[nm]; bool have = m.scalarMultiVectors.count(nm); if (!(inPlace && have)) { m.scalarMultiVectors[nm] = V2("x", r, c); q = zeros(r, c); } auto v = m.scalarMultiVectors[nm]; for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < q[0].size(); ++j) v(i, j) = q[i][j] = s.sreal(5); }
            if (op == 3) { auto& q = cur.d[nm]; bool have = m.scalarArray3Ds.count(nm); if (!(inPlace && have)) { m.scalarArray3Ds[nm] = V3("x", r, c, t); q.assign(r, zeros(c, t)); } auto v = m.scalarArray3Ds[nm]; for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < q[0].size(); ++j) for (size_t l = 0; l < q[0][0].size(); ++l) v(i, j, l) = q[i][j][l] = s.sreal(5); }
        }
        else if (op <= 5) { m.saveState(); saved.push_back(cur); s.desc << " save"; }
        else if (s.chance(1, 3)) { m.clearStates(); saved.clear(); s.desc << " clear"; }
        same(m, cur, "live data after operation " + std::to_string(k)); same(m.getState(), cur, "copy of the live data");
        REQ(m.stateDataMaps.size() == saved.size(), "number of saved states " << m.stateDataMaps.size());
        if (saved.empty()) same(m.getState(s.intIn(0, 3)), cur, "no state saved: current data");
        else { for (size_t i = 0; i < saved.size(); ++i) { auto st = m.getState((int)i); same(st, saved[i], "saved state " + std::to_string(i) + " after operation " + std::to_string(k)); REQ(st.stateDataMaps.empty(), "a saved state holds states"); } THROWS(m.getState((int)saved.size()), "one past the last state"); THROWS(m.getState(-1), "negative state"); THROWS(m.getState((int)saved.size() + s.intIn(1, 50)), "far past the last state"); }
    }
    s.nontrivial(change);
}
PBT("solution", 100, "several time steps") {
    int r = s.intIn(1, 4), c = s.intIn(1, 4); auto A = randMat(s, r, c, 5), B = randMat(s, r, c, 5), C = randMat(s, r, c, 5); V2 a = view2(A, c), b = view2(B, c), d = view2(C, c); s.desc << "solution of " << r << " steps"; s.nontrivial(r > 1);
    Plato::Solution s0, s1(a), s2(a, b), s3(a, b, d); auto eq = [&](const V2& v, const dmat& w, const char* what) { REQ((int)v.extent(0) == r && (int)v.extent(1) == c, what << ": shape"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) REQ(v(i, j) == w[i][j], what); };
    REQ(s0.State.size() == 0 && s0.StateDot.size() == 0 && s0.StateDotDot.size() == 0, "empty solution"); for (auto* q : {&s1, &s2, &s3}) eq(q->State, A, "state"); REQ(s1.StateDot.size() == 0 && s1.StateDotDot.size() == 0 && s2.StateDotDot.size() == 0, "rates that were not given"); eq(s2.StateDot, B, "rate"); eq(s3.StateDot, B, "rate"); eq(s3.StateDotDot, C, "acceleration");
}
PBT("convergence_history", 600, "several iterations") {
    Plato::NewtonRaphsonOutputData o; REQ(o.mStopingCriterion == Plato::NewtonRaphson::DID_NOT_CONVERGE && o.mCurrentIteration == 0 && o.mStoppingMeasure == Plato::NewtonRaphson::ABSOLUTE_RESIDUAL_NORM && o.mWriteOutput, "defaults");
    bool rel = s.flag(); int n = s.len(1, 10); s.desc << (rel ? "relative" : "absolute") << " error over " << n; s.nontrivial(n > 1); double ref = 0, meas = o.mNormMeasure, cur = s.logreal(1e-8, 1e8); auto go = [&] { rel ? Plato::compute_relative_residual_norm_error(o) : Plato::compute_absolute_residual_norm_error(o); };
    for (int k = 0; k < n; ++k) {
        if (s.chance(1, 6)) { double bad = s.flag() ? NAN : INFINITY; bool inRef = s.flag(); double a = o.mCurrentNorm, b = o.mReferenceNorm; (inRef ? o.mReferenceNorm : o.mCurrentNorm) = bad; if (!inRef && k == 0) o.mReferenceNorm = 1; THROWS(go(), "non-finite norm accepted"); o.mCurrentNorm = a; o.mReferenceNorm = b; s.tag("non-finite"); }
        cur = s.chance(1, 5) ? cur : s.logreal(1e-8, 1e8); o.mCurrentIteration = k; o.mCurrentNorm = cur; go();
        if (k > 0) meas = rel ? std::fabs(ref - cur) / cur : std::fabs(ref - cur); ref = cur; REQ(o.mReferenceNorm == cur, "reference norm is the last norm"); REQ(o.mCurrentNorm == cur, "current norm changed"); if (k == 0) REQ(o.mNormMeasure == meas, "measure of the first iteration"); else NEAR(o.mNormMeasure, meas, rel ? 0 : ref * 1e-6, "measure at iteration " << k); REQ(o.mNormMeasure >= 0, "negative measure");
    }
}
PBT("criterion_names", 300, "mixed case") {
    bool abs = s.flag(); std::string t = abs ? "absolute residual norm" : "relative residual norm", u = t; bool mixed = false; for (auto& ch : u) if (s.flag()) { ch = toupper(ch); mixed = true; } s.desc << u; s.nontrivial(mixed);
    REQ(Plato::newton_raphson_stopping_criterion(u) == (abs ? Plato::NewtonRaphson::ABSOLUTE_RESIDUAL_NORM : Plato::NewtonRaphson::RELATIVE_RESIDUAL_NORM), "criterion of '" << u << "'");
    std::string d = u; int at = s.intIn(0, (int)d.size() - 1); switch (s.intIn(0, 3)) { case 0: d.erase(at, 1); break; case 1: d.insert(at, 1, '#'); break; case 2: d[at] = '_'; break; default: d += s.flag() ? " " : "s"; } THROWS(Plato::newton_raphson_stopping_criterion(d), "criterion '" << d << "' accepted");
}
struct Scratch { std::string d; Scratch() { char t[] = "stXXXXXX"; REQ(mkdtemp(t), "scratch directory"); d = t; } std::string f(const std::string& n) { return d + "/" + n; } ~Scratch() { if (!d.empty()) { for (auto n : {"a.h5", "log.txt"}) unlink((d + "/" + n).c_str()); rmdir(d.c_str()); } } };
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream o; o << f.rdbuf(); return o.str(); }
PBT("convergence_log", 120, "output on") {
    Scratch sc; Plato::NewtonRaphsonOutputData o; o.mWriteOutput = s.chance(3, 4); o.mCurrentIteration = s.intIn(0, 200); o.mCurrentNorm = s.logreal(1e-12, 1e12); o.mNormMeasure = s.logreal(1e-12, 1e12); s.nontrivial(o.mWriteOutput); s.desc << "log of iteration " << o.mCurrentIteration << " write " << o.mWriteOutput; std::string p = sc.f("log.txt"); std::string txt[3];
    auto call = [&](int k, std::ofstream& f) { k == 0 ? Plato::print_newton_raphson_diagnostics_header(o, f) : k == 1 ? Plato::print_newton_raphson_diagnostics(o, f) : Plato::print_newton_raphson_stop_criterion(o, f); };
    o.mStopingCriterion = (Plato::NewtonRaphson::stop_t)s.intIn(0, 4);
    for (int k = 0; k < 3; ++k) { { std::ofstream f(p); call(k, f); } txt[k] = slurp(p); std::ofstream closed; if (o.mWriteOutput) THROWS(call(k, closed), "writing to a closed log"); else call(k, closed); if (!o.mWriteOutput) REQ(txt[k].empty(), "output although it is off"); else REQ(!txt[k].empty(), "no output"); }
    if (o.mWriteOutput) { std::istringstream in(txt[1]); long it; double a, b; REQ((in >> it >> a >> b), "unreadable log line '" << txt[1] << "'"); REQ(it == o.mCurrentIteration, "iteration in the log"); NEARTOL(a, o.mCurrentNorm, 0, 1e-5, "norm in the log"); NEARTOL(b, o.mNormMeasure, 0, 1e-5, "measure in the log");
        // the message tells the reasons for stopping apart
        auto old = o.mStopingCriterion; int other = s.intIn(0, 4); o.mStopingCriterion = (Plato::NewtonRaphson::stop_t)other; { std::ofstream f(p); call(2, f); } REQ((slurp(p) == txt[2]) == (other == (int)old), "stop messages of reasons " << (int)old << " and " << other); }
}
template<class T> static T val(pbt::Src& s) { // now and then the ends of the range
    if (s.chance(1, 8)) { static const T e[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), (T)(std::numeric_limits<T>::max() - (T)1), std::numeric_limits<T>::min(), std::numeric_limits<T>::epsilon(), (T)-1}; return e[s.intIn(0, 5)]; }
    return std::is_floating_point<T>::value ? (T)s.sreal(1e6) : std::is_signed<T>::value ? (T)((long)s.draw(2000000) - 1000000) : (T)s.draw(2000000);
}
struct Item { std::string label; int kind; std::vector<int> i; std::vector<unsigned> u; std::vector<long> l; std::vector<unsigned long> ul; dvec d; std::string t; bool b; };
PBT("restart_file", 30, "several datasets and an empty one or a reopened file") {
    Scratch sc; std::string p = sc.f("a.h5"); auto f = Plato::create_hdf5_file(p); herr_t st = 0; int n = s.len(1, 7); std::vector<Item> its; bool empty = false, reopened = false; s.desc << "file of " << n << " datasets:";
    for (int k = 0; k < n; ++k) {
        Item t; t.label = std::string(1, (char)('a' + s.intIn(0, 25))) + std::to_string(k); t.kind = s.intIn(0, 11); int len = s.chance(1, 40) ? s.intIn(7, 2500) : s.intIn(0, 6); REQ(!Plato::dataset_exists(f, t.label), "dataset exists before it is saved"); s.desc << " " << t.kind << "x" << len; empty |= len == 0 && t.kind < 6; bool scal = t.kind >= 6 && t.kind <= 10; if (scal) len = 1;
        for (int q = 0; q < len; ++q) { if (q >= 40) { t.i.push_back(t.i[q - 40] ^ q); t.u.push_back(t.u[q - 40] ^ q); t.l.push_back(t.l[q - 40] ^ q); t.ul.push_back(t.ul[q - 40] ^ q); t.d.push_back(t.d[q - 40] / 3 + q); continue; } t.i.push_back(val<int>(s)); t.u.push_back(val<unsigned>(s)); t.l.push_back(s.chance(1, 8) ? val<long>(s) : val<int>(s) * 100000L); t.ul.push_back(s.chance(1, 8) ? val<unsigned long>(s) : val<unsigned>(s) * 100000UL); t.d.push_back(val<double>(s)); } t.b = s.flag(); int tl = s.len(1, 12, 50); for (int q = 0; q < tl; ++q) t.t += (char)s.intIn(' ', '~');
        switch (t.kind) { case 0: Plato::save_vector_to_hdf5_file(f, t.label, t.i, st); break; case 1: Plato::save_vector_to_hdf5_file(f, t.label, t.u, st); break; case 2: Plato::save_vector_to_hdf5_file(f, t.label, t.l, st); break; case 3: Plato::save_vector_to_hdf5_file(f, t.label, t.ul, st); break; case 4: Plato::save_vector_to_hdf5_file(f, t.label, t.d, st); break; case 5: Plato::save_scalar_vector_to_hdf5_file(f, t.label, Kokkos::create_mirror_view(view(t.d)), st); break;
            case 6: Plato::save_scalar_to_hdf5_file(f, t.label, t.i[0], st); break; case 7: Plato::save_scalar_to_hdf5_file(f, t.label, t.u[0], st); break; case 8: Plato::save_scalar_to_hdf5_file(f, t.label, t.ul[0], st); break; case 9: Plato::save_scalar_to_hdf5_file(f, t.label, t.d[0], st); break; case 10: Plato::save_scalar_to_hdf5_file(f, t.label, t.b, st); break; default: Plato::save_string_to_hdf5_file(f, t.label, t.t, st); }
        REQ(st == 0, "status of saving " << st); its.push_back(t); if (s.chance(1, 3)) { REQ(Plato::close_hdf5_file(f) >= 0, "close"); f = Plato::open_hdf5_file(p); REQ(f >= 0, "reopen"); reopened = true; }
    }
    REQ(Plato::close_hdf5_file(f) >= 0, "close"); f = Plato::open_hdf5_file(p); REQ(f >= 0, "reopen"); s.nontrivial(n > 1 && (empty || reopened));
    for (auto& t : its) { REQ(Plato::dataset_exists(f, t.label), "dataset " << t.label << " is gone"); std::string w = "dataset " + t.label + " of kind " + std::to_string(t.kind);
        #define LOADV(T, m) { std::vector<T> g((size_t)s.intIn(0, 3)); Plato::load_vector_from_hdf5_file(f, t.label, g, st); REQ(g == t.m, w); }
        #define LOADS(T, v) { T g{}; Plato::load_scalar_from_hdf5_file(f, t.label, g, st); REQ(g == v, w); }
        switch (t.kind) { case 0: LOADV(int, i) break; case 1: LOADV(unsigned, u) break; case 2: LOADV(long, l) break; case 3: LOADV(unsigned long, ul) break; case 4: LOADV(double, d) break; case 5: { auto g = Kokkos::create_mirror_view(V1("g", t.d.size())); Plato::load_scalar_vector_from_hdf5_file(f, t.label, g, st); for (size_t q = 0; q < t.d.size(); ++q) REQ(g(q) == t.d[q], w << " entry " << q); break; }
            case 6: LOADS(int, t.i[0]) break; case 7: LOADS(unsigned, t.u[0]) break; case 8: LOADS(unsigned long, t.ul[0]) break; case 9: LOADS(double, t.d[0]) break; case 10: LOADS(bool, t.b) break; default: { std::string g = "old"; Plato::load_string_from_hdf5_file(f, t.label, g, st); REQ(g == t.t, w << ": '" << g << "' instead of '" << t.t << "'"); } } }
    REQ(!Plato::dataset_exists(f, "missing"), "a dataset that was never saved exists"); { dvec g; auto v = Kokkos::create_mirror_view(V1("g", 1)); THROWS(Plato::load_vector_from_hdf5_file(f, "missing", g, st), "missing vector"); THROWS(Plato::load_scalar_vector_from_hdf5_file(f, "missing", v, st), "missing scalar vector"); }
    Plato::close_hdf5_file(f); REQ(H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL) == 0, "a closed restart file is still held open by " << H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL) << " objects"); { hsize_t sp = 0; H5Inmembers(H5I_DATASPACE, &sp); static hsize_t sp0 = 0; hsize_t was = sp0; sp0 = sp; REQ(sp <= was, "dataspaces left open: " << (long)(sp - was)); }
}
PBT("rank_paths", 200, "parallel") {
    int n = s.len(1, 12), r = s.intIn(0, 11) % n; std::string b; int len = s.intIn(1, 8); for (int i = 0; i < len; ++i) b += "ab.c/_"[s.intIn(0, 5)]; std::string e = s.flag() ? ".h5" : ".hdf5"; s.desc << b + e << " " << r << "/" << n; s.nontrivial(n > 1);
    auto g = Plato::make_path_parallel(b + e, n, r), w = n > 1 ? b + "_" + std::to_string(n) + "." + std::to_string(r) + e : b + e; REQ(g == w, g << " instead of " << w); int r2 = s.intIn(0, 11) % n; REQ((Plato::make_path_parallel(b + e, n, r2) == g) == (n == 1 || r2 == r), "two ranks share a file");
}
PBT("reductions", 100, "several values") {
    int a = 0; static MPI_Comm self = MPI_COMM_SELF; static Plato::Comm::Machine& m = *new Plato::Comm::Machine(self); (void)a; s.desc << "reductions"; REQ(Plato::Comm::size(m) == 1 && Plato::Comm::rank(m) == 0, "size and rank"); double x = s.sreal(1e3); REQ(Plato::Comm::max(m, x) == x && Plato::Comm::min(m, x) == x && Plato::Comm::sum(m, x) == x, "reductions of " << x); int n = s.intIn(0, 5); dvec l = s.vec(n, 9), g(n + 2, 77); s.nontrivial(n > 1); Plato::Comm::allReduce(m, n, l.data(), g.data()); for (int i = 0; i < n; ++i) REQ(g[i] == l[i], "entry " << i << " of the reduction"); REQ(g[n] == 77 && g[n + 1] == 77, "writes past the end");
}
