// Points of regular grids and cells of the mesh generators, part by part.
// Input: one request per line; output: one line of numbers per request.
#include "QuickGrid.h"
#include <cstdio>
#include <fstream>
#include <sstream>
using namespace QUICKGRID;

static void show(const UTILITIES::Array<double>& a, size_t n){
  for(size_t i=0;i<n;i++) printf("%.17g ", a.get()[i]);
  printf("\n");
}

static void cells(QuickGridMeshGenerationIterator& it, int procs){
  // part, identifier, point, volume
  QuickGridData d = it.allocatePdGridData();
  std::pair<Cell3D,QuickGridData> p = it.beginIterateProcs(d);
  for(int proc=0;;proc++){
    const QuickGridData& g = p.second;
    for(size_t i=0;i<g.numPoints;i++)
      printf("%d %d %.17g %.17g %.17g %.17g ", proc, g.myGlobalIDs.get()[i], g.myX.get()[3*i], g.myX.get()[3*i+1], g.myX.get()[3*i+2], g.cellVolume.get()[i]);
    if(proc + 1 == procs) break;
    QuickGridData n = it.allocatePdGridData();
    p = it.nextProc(p.first, n);
  }
  printf("\n");
}

int main(int, char** argv){
  std::ifstream in(argv[1]);
  std::string l, kind;
  while(std::getline(in, l)){
    std::istringstream s(l);
    s >> kind;
    if(kind == "line" || kind == "square" || kind == "box" || kind == "cells"){
      int m = kind == "line" ? 1 : kind == "square" ? 2 : 3;
      int procs = 1;
      double h = 1;
      if(kind == "cells") s >> procs >> h;
      std::vector<Spec1D> v;
      size_t total = 1;
      for(int a=0;a<m;a++){ size_t n; double x, L; s >> n >> x >> L; v.push_back(Spec1D(n, x, L)); total *= n; }
      if(kind == "cells"){ TensorProduct3DMeshGenerator g(procs, h, v[0], v[1], v[2]); cells(g, procs); }
      else if(m == 1) show(getDiscretization(v[0]), total);
      else if(m == 2) show(getDiscretization(v[0], v[1]), 2*total);
      else show(getDiscretization(v[0], v[1], v[2]), 3*total);
    }
    else if(kind == "solid"){
      int procs; size_t rings; double R, z, L;
      s >> procs >> R >> rings >> z >> L;
      TensorProductSolidCylinder g(procs, R, rings, z, L);
      cells(g, procs);
    }
    else {
      int procs = 1; double h = 1;
      if(kind == "cylinder") s >> procs >> h;
      UTILITIES::Vector3D c; double rI, r0; int rings;
      s >> c[0] >> c[1] >> c[2] >> rI >> r0 >> rings;
      SpecRing2D ring(c, rI, r0, rings);
      if(kind == "ring"){ printf("%d ", (int)ring.getNumRays()); show(getDiscretization(ring), 3*ring.getNumCells()); continue; }
      size_t n; double x, L; s >> n >> x >> L;
      Spec1D axis(n, x, L);
      printf("%d ", (int)ring.getNumRays());
      if(kind == "tube") show(getDiscretization(ring, axis), 3*ring.getNumCells()*n);
      else { TensorProductCylinderMeshGenerator g(procs, h, ring, axis); cells(g, procs); }
    }
  }
}
