from .common import *


def no_force(O):
    f = O.tot(FD, w_any)
    return [eq("force as if the broken bonds were absent", f, O.twin().tot(FD, w_any))]


mat = MATERIALS
NAMES = ["elastic", "elastic_thermal", "bond_based", "bond_based_2d", "plastic", "plastic_planar", "hardening", "viscoelastic", "multiphysics", "multiphysics_thermal", "linear_lps"
         ]
CONTRACTS = [Contract(Without(mat[n]()), no_force, name=n) for n in NAMES]
