// selection by name and evaluation of the influence functions of /repo
#include "Peridigm_InfluenceFunction.hpp"
#include <string>
using PeridigmNS::InfluenceFunction;

static double select(const char* name, double zeta, double horizon){
  std::string s(name);
  InfluenceFunction::self().setInfluenceFunction(s);
  return InfluenceFunction::self().getInfluenceFunction()(zeta, horizon);
}

static double predefined(const char* name, double zeta, double horizon){
  std::string s(name);
  return InfluenceFunction::getPredefinedInfluenceFunction(s)(zeta, horizon);
}

double vfDefault(double zeta, double horizon){ return InfluenceFunction::self().getInfluenceFunction()(zeta, horizon); }
double vfOne(double zeta, double horizon){ return select("One", zeta, horizon); }
double vfParabolic(double zeta, double horizon){ return select("Parabolic Decay", zeta, horizon); }
double vfGaussian(double zeta, double horizon){ return select("Gaussian", zeta, horizon); }
double vfPreOne(double zeta, double horizon){ return predefined("One", zeta, horizon); }
double vfPreParabolic(double zeta, double horizon){ return predefined("Parabolic Decay", zeta, horizon); }
double vfPreGaussian(double zeta, double horizon){ return predefined("Gaussian", zeta, horizon); }
double vfLast(double zeta, double horizon){
  select("Gaussian", zeta, horizon);
  select("One", zeta, horizon);
  return select("Parabolic Decay", zeta, horizon);
}
double vfUser(double zeta, double horizon){ return select("value = 2.0*zeta + horizon*horizon", zeta, horizon); }
double vfUserShort(double zeta, double horizon){ return select("zeta*zeta - horizon", zeta, horizon); }
#include "material_utilities.h"
double vfUsed(double zeta, double horizon){
  select("Parabolic Decay", zeta, horizon);
  return MATERIAL_EVALUATION::scalarInfluenceFunction(zeta, horizon);
}
double vfUsedAgain(double zeta, double horizon){
  select("Gaussian", zeta, horizon);
  MATERIAL_EVALUATION::scalarInfluenceFunction(horizon, zeta);
  return MATERIAL_EVALUATION::scalarInfluenceFunction(zeta, horizon);
}
