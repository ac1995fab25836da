// The bond filters of /repo applied to a list of candidate neighbours.
#include "BondFilter.h"
#include <vector>
using namespace PdBondFilter;

namespace {
// a list viewed as the vector the filters are given
struct View {
  int *b, *e, *c;
  View(int* t, int n) : b(t), e(t+n), c(t+n) {}
  std::vector<int>& get(){ return *reinterpret_cast<std::vector<int>*>(this); }
};
}

void cutDefault(int* tree, int n, const double* pt, int id, const double* x, bool* flags){
  View v(tree, n);
  BondFilterDefault f;
  f.filterBonds(v.get(), pt, id, x, flags);
}
void keepDefault(int* tree, int n, const double* pt, int id, const double* x, bool* flags){
  View v(tree, n);
  BondFilterDefault f(true);
  f.filterBonds(v.get(), pt, id, x, flags);
}
void cutPlane(double* normal, double* corner, double* bottom, double lengthBottom, double lengthA, int* tree, int n, const double* pt, int id, const double* x, bool* flags){
  View v(tree, n);
  FinitePlane p(normal, corner, bottom, lengthBottom, lengthA);
  FinitePlaneFilter f(p);
  f.filterBonds(v.get(), pt, id, x, flags);
}
void cutDisk(double* center, double* normal, double radius, int* tree, int n, const double* pt, int id, const double* x, bool* flags){
  View v(tree, n);
  DiskFilter f(center, normal, radius);
  f.filterBonds(v.get(), pt, id, x, flags);
}
void cutTriangle(double* v1, double* v2, double* v3, int* tree, int n, const double* pt, int id, const double* x, bool* flags){
  View v(tree, n);
  TriangleFilter f(v1, v2, v3);
  f.filterBonds(v.get(), pt, id, x, flags);
}
void cutQuad(double* v1, double* v2, double* v3, double* v4, int* tree, int n, const double* pt, int id, const double* x, bool* flags){
  View v(tree, n);
  QuadFilter f(v1, v2, v3, v4);
  f.filterBonds(v.get(), pt, id, x, flags);
}
