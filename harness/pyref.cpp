// The library, called directly: what the bindings are compared with. Every
// function takes plain arrays; nothing here goes through src/python.
#include "c27lib.cpp"

#include <Python.h>
#include <pybind11/pybind11.h>

#include "fes/python/datemanip.hpp"
#include "fes/python/datetime64.hpp"
#include "fes/tide.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"

namespace {
using Table = fes::wave::Table;
template <typename T>
auto vec(const T* p, int n) { return Eigen::Map<const Eigen::Matrix<T, -1, 1>>(p, n); }
auto formulae(int f) { return static_cast<fes::angle::Formulae>(f); }
Table& table(void* t) { return *static_cast<Table*>(t); }
int describe(const fes::Wave& w, double* o) {
  double v[] = {double(w.ident()), double(w.type()), w.freq(), w.f(), w.u(), w.v(), w.vu(), w.tide().real(), w.tide().imag(), double(w.admittance()), double(w.dynamic()), w.period()};
  std::copy(std::begin(v), std::end(v), o);
  return int(sizeof(v) / sizeof(v[0]));
}
}  // namespace

extern "C" {
void vr_angles(int f, double epoch, int leap, double* o) {
  fes::angle::Astronomic a(formulae(f));
  a.update(epoch, static_cast<uint16_t>(leap));
  double v[] = {a.t(), a.n(), a.h(), a.s(), a.p1(), a.p(), a.i(), a.xi(), a.nu(), a.x1ra(), a.r(), a.nuprim(), a.nusec()};
  std::copy(std::begin(v), std::end(v), o);
}

int vr_table(const char** names, int n, void** out) {
  return guarded([&] { *out = new Table(std::vector<std::string>(names, names + n)); });
}
void vr_free_table(void* t) { delete static_cast<Table*>(t); }
int vr_table_state(void* t, double* o) {
  int n = 0;
  for (const auto& w : table(t)) o += describe(*w, o), ++n;
  return n;
}
void vr_table_nodal(void* t, int f, double epoch, int leap) {
  fes::angle::Astronomic a(formulae(f));
  a.update(epoch, static_cast<uint16_t>(leap));
  table(t).compute_nodal_corrections(a);
}
int vr_wave_nodal(void* t, int id, int which, int f, double epoch, int leap) {
  return guarded([&] {
    fes::angle::Astronomic a(formulae(f));
    a.update(epoch, static_cast<uint16_t>(leap));
    auto& w = table(t)[static_cast<fes::Constituent>(id)];
    which == 0 ? w->nodal_a(a) : w->nodal_g(a);
  });
}
int vr_table_admittance(void* t) { return guarded([&] { table(t).admittance(); }); }
int vr_table_set(void* t, int id, int what, double a, double b) {
  return guarded([&] {
    for (auto&& w : table(t)) {
      if (int(w->ident()) != id) continue;
      if (what == 0) w->tide({a, b});
      if (what == 1) w->admittance(a != 0);
      if (what == 2) w->dynamic(a != 0);
    }
  });
}
int vr_find(void* t, const char* name, int* id) {
  return guarded([&] {
    auto w = table(t).find(name);
    *id = w ? int(w->ident()) : -1;
  });
}
int vr_doodson(int id, char* out) {
  return guarded([&] {
    auto s = Table::wave_factory(static_cast<fes::Constituent>(id))->doodson_number();
    std::strcpy(out, s.c_str());
  });
}
int vr_harmonic(const double* h, int n, const double* f, const double* vu, int rows, int cols, std::complex<double>* o) {
  return guarded([&] {
    Eigen::MatrixXd a = matrix(f, rows, cols), b = matrix(vu, rows, cols);
    Eigen::VectorXcd r = Table::harmonic_analysis(vec(h, n), a, b);
    std::copy(r.data(), r.data() + r.size(), o);
  });
}
int vr_series(void* t, const double* epoch, int n, const uint16_t* leap, const std::complex<double>* w, int m, int f, double* o) {
  return guarded([&] {
    auto r = table(t).tide_from_tide_series(vec(epoch, n), vec(leap, n), vec(w, m), formulae(f));
    std::copy(r.data(), r.data() + r.size(), o);
  });
}
int vr_mapping(void* t, double epoch, int leap, const std::complex<double>* w, int rows, int cols, int f, int threads, double* o) {
  return guarded([&] {
    Eigen::MatrixXcd a = matrix(w, rows, cols);
    auto r = table(t).tide_from_mapping(epoch, static_cast<uint16_t>(leap), a, formulae(f), static_cast<size_t>(threads));
    for (int i = 0; i < r.rows(); ++i)
      for (int j = 0; j < r.cols(); ++j) o[i * r.cols() + j] = r(i, j);
  });
}
int vr_modulations(void* t, const double* epoch, int n, const uint16_t* leap, int f, double* of, double* ovu) {
  return guarded([&] {
    auto r = table(t).compute_nodal_modulations(vec(epoch, n), vec(leap, n), formulae(f));
    const auto &a = std::get<0>(r), &b = std::get<1>(r);
    for (int i = 0; i < a.rows(); ++i)
      for (int j = 0; j < n; ++j) of[i * n + j] = a(i, j), ovu[i * n + j] = b(i, j);
  });
}
int vr_select(double duration, double f, int* ids) {
  auto v = Table::select_waves_for_analysis(duration, f);
  for (size_t i = 0; i < v.size(); ++i) ids[i] = int(fes::constituents::parse(v[i]));
  return int(v.size());
}
int vr_lpe(void* t, int f, double epoch, int leap, double lat, double* o) {
  return guarded([&] {
    fes::angle::Astronomic a(formulae(f));
    a.update(epoch, static_cast<uint16_t>(leap));
    fes::wave::LongPeriodEquilibrium l;
    if (t != nullptr) l.disable_dynamic_wave(table(t));
    *o = l.lpe_minus_n_waves(a, lat);
  });
}
int vr_evaluate(void* model, const double* epoch, const uint16_t* leap, const double* lon, const double* lat, int n, int f, double tolerance, const int* excluded, int ne, int threads,
                double* tide, double* lp, int* quality) {
  return guarded([&] {
    auto* m = static_cast<Model*>(model);
    std::vector<fes::Constituent> e;
    for (int i = 0; i < ne; ++i) e.push_back(fes::Constituent(excluded[i]));
    fes::Settings s(formulae(f), tolerance, e);
    auto r = m->d ? fes::evaluate_tide(m->d.get(), vec(epoch, n), vec(leap, n), vec(lon, n), vec(lat, n), s, static_cast<size_t>(threads))
                  : fes::evaluate_tide(m->f.get(), vec(epoch, n), vec(leap, n), vec(lon, n), vec(lat, n), s, static_cast<size_t>(threads));
    for (int i = 0; i < n; ++i) tide[i] = std::get<0>(r)(i), lp[i] = std::get<1>(r)(i), quality[i] = int(std::get<2>(r)(i));
  });
}
int vr_interpolate_table(void* model, double lon, double lat, void* t, int* quality) {
  return guarded([&] {
    auto* m = static_cast<Model*>(model);
    auto run = [&](const auto& x) {
      std::unique_ptr<fes::Accelerator> acc(x.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0));
      *quality = int(x.interpolate({lon, lat}, table(t), acc.get()));
    };
    m->d ? run(*m->d) : run(*m->f);
  });
}
int vr_clear(void* model) {
  return guarded([&] {
    auto* m = static_cast<Model*>(model);
    m->d ? m->d->clear() : m->f->clear();
  });
}
int vr_axis(void* a, double* o) {
  auto& x = *static_cast<fes::Axis*>(a);
  return guarded([&] {
    double v[] = {double(x.size()), x.start(), x.step(), double(x.is_ascending()), double(x.is_circular()), x.end(), x.min_value(), x.max_value()};
    std::copy(std::begin(v), std::end(v), o);
  });
}
int vr_axis_at(void* a, long i, double* o) {
  return guarded([&] { *o = (*static_cast<fes::Axis*>(a))(i); });
}
long vr_axis_index(void* a, double x, int bounded) { return long(static_cast<fes::Axis*>(a)->find_index(x, bounded != 0)); }
int vr_axis_indices(void* a, double x, long* o) {
  auto r = static_cast<fes::Axis*>(a)->find_indices(x);
  if (!r) return 0;
  o[0] = long(std::get<0>(*r));
  o[1] = long(std::get<1>(*r));
  return 1;
}
int vr_axis_equal(void* a, void* b) { return *static_cast<fes::Axis*>(a) == *static_cast<fes::Axis*>(b); }

// The conversions of dates, called as the bindings call them (ctypes.PyDLL).
// 0, or 1 when refused (std::invalid_argument, std::domain_error), 2 otherwise
int vr_epoch(PyObject* array, double* o) {
  try {
    auto r = fes::python::npdatetime64_to_epoch(pybind11::reinterpret_borrow<pybind11::array>(array));
    std::copy(r.data(), r.data() + r.size(), o);
    return 0;
  } catch (const std::logic_error& e) {
    last_error = e.what();
    return 1;
  } catch (const std::exception& e) {
    last_error = e.what();
    PyErr_Clear();
    return 2;
  }
}
}

extern "C" int vr_get(void* t, int id, int* out) {
  return guarded([&] {
    const auto& c = table(t);
    auto w = c[static_cast<fes::Constituent>(id)];
    *out = w ? int(w->ident()) : -1;
  });
}
