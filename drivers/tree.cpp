// The radius query of /repo's search tree, and what the tree tells the external decomposition about its points.
// The box query of the decomposition is a stand-in: it notes the box and answers with any list of candidates.
#include <memory>
#include <vector>
#include <string>
#include <iostream>
#define private public
#include "Peridigm_ZoltanSearchTree.hpp"
#undef private
using PeridigmNS::ZoltanSearchTree;

namespace {
struct Decomposition { double* box; int count; };
}

extern "C" int Zoltan_LB_Box_PP_Assign(Zoltan_Struct* zz, double x0, double y0, double z0, double x1, double y1, double z1, int* procs, int* numProcs, int* parts, int* numParts){
  Decomposition* d = reinterpret_cast<Decomposition*>(zz);
  d->box[0] = x0; d->box[1] = y0; d->box[2] = z0;
  d->box[3] = x1; d->box[4] = y1; d->box[5] = z1;
  *procs = 0; *numProcs = 1;
  *numParts = d->count;
  return 0;
}

// how often each point is listed
void count(std::vector<int>& list, int* listed);
void queryRadius(double* x, int* pointOfPart, int* candidates, int n, double* point, double radius, double* box, int* listed){
  Decomposition d; d.box = box; d.count = n;
  alignas(16) char m[sizeof(ZoltanSearchTree)];
  ZoltanSearchTree* t = reinterpret_cast<ZoltanSearchTree*>(m);
  t->callbackdata.num_points = n;
  t->callbackdata.x = x;
  t->zoltan = reinterpret_cast<Zoltan_Struct*>(&d);
  t->partToCoordIdx = pointOfPart;
  t->searchParts = candidates;
  std::vector<int> found;
  t->ZoltanSearchTree::FindPointsWithinRadius(point, radius, found);
  count(found, listed);
}

void tellCoordinates(double* x, int n, double* told){
  ZoltanSearchTree::callback_data d(n, x);
  int err;
  ZoltanSearchTree::get_point_coordinates(&d, 1, 0, n, 0, 0, 3, told, &err);
}

void tellIds(double* x, int n, int* told){
  ZoltanSearchTree::callback_data d(n, x);
  int err;
  ZoltanSearchTree::get_point_ids(&d, 1, 0, (ZOLTAN_ID_PTR)told, 0, 0, 0, &err);
}

int tellNumber(double* x, int n){
  ZoltanSearchTree::callback_data d(n, x);
  int err;
  return ZoltanSearchTree::get_num_points(&d, &err);
}
