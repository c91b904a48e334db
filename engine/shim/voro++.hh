// Stand-in for voro++ (a third-party library): every answer it gives is an
// arbitrary value chosen by the harness (extern "C" hooks, see engine/voro.py).
#pragma once
#include <vector>
#include <string>
#include <cmath>
#include <cstdio>
extern "C" {
void __voro_put(int id, double x, double y, double z);
void __voro_box(double ax, double bx, double ay, double by, double az, double bz, int px, int py, int pz);
void __voro_periodic(double bx, double bxy, double by, double bxz, double byz, double bz);
int __voro_cells();
int __voro_pid(int k);
int __voro_compute(int k);
int __voro_nfaces(int k);
double __voro_area(int k, int f);
int __voro_neigh(int k, int f);
int __voro_order(int k, int f);
double __voro_perim(int k, int f);
int __voro_nfv(int k);
int __voro_fv(int k, int i);
int __voro_nverts(int k);
double __voro_vert(int k, int i);
double __voro_volume(int k);
}
namespace voro {
class voronoicell_neighbor { public: int k = -1;
  void face_areas(std::vector<double> &v) { v.clear(); int n = __voro_nfaces(k); for (int i = 0; i < n; i++) v.push_back(__voro_area(k, i)); }
  void neighbors(std::vector<int> &v) { v.clear(); int n = __voro_nfaces(k); for (int i = 0; i < n; i++) v.push_back(__voro_neigh(k, i)); }
  void face_orders(std::vector<int> &v) { v.clear(); int n = __voro_nfaces(k); for (int i = 0; i < n; i++) v.push_back(__voro_order(k, i)); }
  void face_perimeters(std::vector<double> &v) { v.clear(); int n = __voro_nfaces(k); for (int i = 0; i < n; i++) v.push_back(__voro_perim(k, i)); }
  void face_vertices(std::vector<int> &v) { v.clear(); int n = __voro_nfv(k); for (int i = 0; i < n; i++) v.push_back(__voro_fv(k, i)); }
  void vertices(std::vector<double> &v) { v.clear(); int n = __voro_nverts(k); for (int i = 0; i < 3 * n; i++) v.push_back(__voro_vert(k, i)); }
  void vertices(double x, double y, double z, std::vector<double> &v) { v.clear(); int n = __voro_nverts(k);
    for (int i = 0; i < n; i++) { v.push_back(__voro_vert(k, 3 * i) + x); v.push_back(__voro_vert(k, 3 * i + 1) + y); v.push_back(__voro_vert(k, 3 * i + 2) + z); } }
  double volume() { return __voro_volume(k); }
  int number_of_faces() { return __voro_nfaces(k); }
};
class container { public:
  container(double ax, double bx, double ay, double by, double az, double bz, int, int, int, bool px, bool py, bool pz, int) {
    __voro_box(ax, bx, ay, by, az, bz, px, py, pz); }
  void put(int id, double x, double y, double z) { __voro_put(id, x, y, z); }
  template <class L> bool compute_cell(voronoicell_neighbor &c, L &l) { c.k = l.k; return __voro_compute(l.k) != 0; }
};
class container_periodic { public:
  container_periodic(double bx, double bxy, double by, double bxz, double byz, double bz, int, int, int, int) { __voro_periodic(bx, bxy, by, bxz, byz, bz); }
  void put(int id, double x, double y, double z) { __voro_put(id, x, y, z); }
  template <class L> bool compute_cell(voronoicell_neighbor &c, L &l) { c.k = l.k; return __voro_compute(l.k) != 0; }
};
class pre_container { std::vector<int> ids; std::vector<double> xs; public:
  pre_container(double, double, double, double, double, double, bool, bool, bool) {}
  void put(int id, double x, double y, double z) { ids.push_back(id); xs.push_back(x); xs.push_back(y); xs.push_back(z); }
  void guess_optimal(int &a, int &b, int &c) { a = b = c = 1; }
  void setup(container &con) { for (size_t i = 0; i < ids.size(); i++) con.put(ids[i], xs[3 * i], xs[3 * i + 1], xs[3 * i + 2]); }
};
class c_loop_all { public: int k = 0;
  template <class C> c_loop_all(C &) {}
  bool start() { k = 0; return k < __voro_cells(); }
  bool inc() { k++; return k < __voro_cells(); }
  int pid() { return __voro_pid(k); }
};
typedef c_loop_all c_loop_all_periodic;
}
