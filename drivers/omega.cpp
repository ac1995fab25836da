// influence function used when a kernel is run on its own (the contract quantifies over all of them)
namespace MATERIAL_EVALUATION {
double scalarInfluenceFunction(double zeta, double horizon){ return 1.0/(1.0+zeta*zeta/(horizon*horizon)); }
}
