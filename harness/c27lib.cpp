// The models of the library for the Python stand-in of the compiled module.
#include <complex>
#include <cstring>
#include <memory>

#include "fes/axis.hpp"
#include "fes/constituent.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"

namespace {
std::string last_error, text;
using D = fes::AbstractTidalModel<double>;
using F = fes::AbstractTidalModel<float>;
struct Model { std::shared_ptr<D> d; std::shared_ptr<F> f; };
template <typename G>
int guarded(G&& g) {
  try { g(); return 0; }
  catch (const std::invalid_argument& e) { last_error = e.what(); return 1; }
  catch (const std::exception& e) { last_error = e.what(); return 2; }
}
template <typename T>
Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> matrix(const T* p, int rows, int cols) {
  return Eigen::Map<const Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(p, rows, cols);
}
template <typename T>
std::shared_ptr<fes::AbstractTidalModel<T>> lgp(int order, std::shared_ptr<fes::mesh::Index> index, const int* codes, int rows, fes::TideType tide, double distance) {
  if (order == 1) return std::make_shared<fes::tidal_model::LGP1<T>>(index, matrix(codes, rows, 3), tide, distance);
  return std::make_shared<fes::tidal_model::LGP2<T>>(index, matrix(codes, rows, 6), tide, distance);
}
template <typename T>
void interpolate(const fes::AbstractTidalModel<T>& m, const double* lon, const double* lat, int n, std::complex<double>* values, int* quality) {
  const auto ids = m.identifiers();
  for (int i = 0; i < n; ++i) {
    std::unique_ptr<fes::Accelerator> acc(m.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0));
    fes::Quality q = fes::Quality::kUndefined;
    for (const auto& item : m.interpolate({lon[i], lat[i]}, q, acc.get()))
      for (size_t k = 0; k < ids.size(); ++k) if (ids[k] == item.first) values[k * n + i] = item.second;
    quality[i] = int(q);
  }
}
}  // namespace

extern "C" {
const char* vp_error() { return last_error.c_str(); }
const char* vp_known() {
  text.clear();
  for (const auto& s : fes::constituents::known()) text += s + " ";
  return text.c_str();
}
int vp_parse(const char* s, int* id) { return guarded([&] { *id = int(fes::constituents::parse(s)); }); }
int vp_name(int id, const char** s) { return guarded([&] { *s = fes::constituents::name(fes::Constituent(id)); }); }

int vp_axis(const double* p, int n, double eps, int circular, void** out) {
  return guarded([&] { *out = new fes::Axis(Eigen::Map<const Eigen::VectorXd>(p, n), eps, circular != 0); });
}
int vp_axis_circular(void* a) { return static_cast<fes::Axis*>(a)->is_circular(); }
int vp_index(const double* lon, int n, const double* lat, int m, const int* t, int rows, void** out) {
  return guarded([&] {
    *out = new std::shared_ptr<fes::mesh::Index>(std::make_shared<fes::mesh::Index>(Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(lon, n)), Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(lat, m)), Eigen::Matrix<int32_t, -1, 3>(matrix(t, rows, 3))));
  });
}
int vp_cartesian(int bits, void* lon, void* lat, int tide, int major, void** out) {
  return guarded([&] {
    auto* m = new Model;
    const auto &x = *static_cast<fes::Axis*>(lon), &y = *static_cast<fes::Axis*>(lat);
    if (bits == 128) m->d = std::make_shared<fes::tidal_model::Cartesian<double>>(x, y, fes::TideType(tide), major != 0);
    else m->f = std::make_shared<fes::tidal_model::Cartesian<float>>(x, y, fes::TideType(tide), major != 0);
    *out = m;
  });
}
int vp_lgp(int bits, int order, void* index, const int* codes, int rows, int tide, double distance, void** out) {
  return guarded([&] {
    auto* m = new Model;
    auto& i = *static_cast<std::shared_ptr<fes::mesh::Index>*>(index);
    if (bits == 128) m->d = lgp<double>(order, i, codes, rows, fes::TideType(tide), distance);
    else m->f = lgp<float>(order, i, codes, rows, fes::TideType(tide), distance);
    *out = m;
  });
}
int vp_add(void* model, const char* name, const std::complex<double>* w, int n) {
  return guarded([&] {
    auto* m = static_cast<Model*>(model);
    Eigen::Map<const Eigen::VectorXcd> v(w, n);
    if (m->d) m->d->add_constituent(std::string(name), v);
    else m->f->add_constituent(std::string(name), v.cast<std::complex<float>>());
  });
}
int vp_set_dynamic(void* model, const int* ids, int n) {
  return guarded([&] {
    auto* m = static_cast<Model*>(model);
    std::vector<fes::Constituent> v;
    for (int i = 0; i < n; ++i) v.push_back(fes::Constituent(ids[i]));
    m->d ? m->d->dynamic(v) : m->f->dynamic(v);
  });
}
int vp_dynamic(void* model, int* ids) {
  auto* m = static_cast<Model*>(model);
  const auto v = m->d ? m->d->dynamic() : m->f->dynamic();
  for (size_t i = 0; i < v.size() && i < 99; ++i) ids[i] = int(v[i]);
  return int(v.size());
}
int vp_identifiers(void* model, int* ids) {
  auto* m = static_cast<Model*>(model);
  const auto v = m->d ? m->d->identifiers() : m->f->identifiers();
  for (size_t i = 0; i < v.size() && i < 99; ++i) ids[i] = int(v[i]);
  return int(v.size());
}
int vp_tide_type(void* model) {
  auto* m = static_cast<Model*>(model);
  return int(m->d ? m->d->tide_type() : m->f->tide_type());
}
int vp_interpolate(void* model, const double* lon, const double* lat, int n, std::complex<double>* values, int* quality) {
  return guarded([&] {
    auto* m = static_cast<Model*>(model);
    m->d ? interpolate(*m->d, lon, lat, n, values, quality) : interpolate(*m->f, lon, lat, n, values, quality);
  });
}
void vp_free_model(void* model) { delete static_cast<Model*>(model); }
void vp_free_axis(void* a) { delete static_cast<fes::Axis*>(a); }
void vp_free_index(void* i) { delete static_cast<std::shared_ptr<fes::mesh::Index>*>(i); }
}
