"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py writes both)."""

P = []
# properties decided by a registered check, with the scope of the decision
CLAIMED = {
    "C02": "11 bond-aligned material configurations, whole computeForce body.",
    "C03": "weighted volume after initialize and dilatation after computeForce of every state-based material; influence function uninterpreted (so: for every influence function).",
    "C04": "functional equality of the force density (tested against an arbitrary weight) and frame, for 6 material configurations and the linearised solid.",
    "C05": "equivariance under translations and under rotations with cosine 3/5 about two axes, which generate a dense subgroup of the rotations; vanishing force in rigidly moved reference bodies.",
    "C06": "every sum over bonds in the force loses the broken bonds' summands; ordinary materials only (correspondence materials document damage as not implemented).",
    "C07": "functional equality with the radial return map; the root selection of the hardening return map is a labelled bounded check.",
    "C08": "functional equality with the closed-form standard linear solid.",
    "C09": "shape tensor, deformation gradient and its rate as tensors of the bond sums, for every influence function; exactness on affine motions as a lemma over those contracts; failure codes for singular shape tensors.",
    "C10": "every tensor kernel the correspondence models call, all entries, every transpose flag.",
    "C11": "elastic, perfectly plastic, linear and power-law hardening updates, at points and at bonds, hardening around a flaw; the iterated return mappings (Newton, bisection) are labelled bounded checks.",
    "C12": "bond-sum law, conservation and uniform fields of heat, species and pore-pressure transport and the vector Poisson residual.",
    "C13": "value, support and selection by name of every influence function, including text compiled at run time.",
    "C14": "all six pairs of elastic constants, plane conditions, and every material that reads them.",
    "C15": "every damage model, from its constructor on; the damage of the previous step is arbitrary.",
    "C16": "criterion, threshold and fraction of every damage model; the set of removed points of the interface model is arbitrary.",
    "C17": "contact force of both contact models, with and without friction, tested against an arbitrary weight; balance of the forces and, without friction, of their moments.",
    "C18": "two blocks of arbitrary contents, constant and position-dependent horizons; the running minimum is proved as a recurrence over the points.",
    "C19": "one step from an arbitrary state, the start, and two chained steps with contact; forces and the effect of the conditions on the velocity are arbitrary; two blocks of arbitrary contents.",
    "C20": "values, scaled increments and scalar fields from the constructor on, with the user's function arbitrary; lists of conditions; reactions and constrained residual for three sets of solved fields.",
    "C21": "copies by point identifier for any maps and element sizes, which tables and states are copied, and the advance of the step; allocation, rebalance and scatter only on bounded random histories on one process.",
    "C22": "points of lines, squares, boxes, rings and tubes for every number of cells, start and length; the distribution of cells over parts; the cell-by-cell generators (boxes, tubes, solid cylinders) on bounded runs over all small sizes and numbers of parts.",
    "C23": "every bond filter from its constructor on, against the list of candidates; tolerances below 1e-12 read as zero.",
    "C24": "two blocks of arbitrary contents and one process; totals are sums over both.",
    "C25": "energy law and its vanishing under rigid motions for four ordinary materials and the position-aware solid.",
    "C27": "every list of indices and every ownership of rows; the block-diagonal variant for lists that name each degree of freedom of a point once.",
    "C28": "force law and balance of the suppression force for every deformation gradient; zero on affine motions from the separately proved contract of the gradient.",
    "C29": "both branches of the increment in the four kernels that update the rotation; the spin itself is arbitrary.",
}


def prop(id, title, statement, over, qtext, why, files, mech, observe, claimed=None, na=None, note=None):
    claimed = claimed or id in CLAIMED
    note = note or CLAIMED.get(id)
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, claimed=claimed, na=na, note=note))


TEST_GAP = "The unit tests run each routine on a handful of hand-made configurations (two- or eight-point bodies, one set of constants); they never quantify over bodies, neighbourhoods, histories or material constants. "
M = "src/materials/"

prop("C01", "Internal forces balance: they never create linear momentum",
     "For every material model, whatever the body, its neighbourhoods, its damage and its state, the volume-weighted sum of the internal force densities over all points is exactly zero in each direction.",
     ["inputs", "configurations", "histories"],
     "all point counts, neighbour lists (symmetric or not), volumes, positions, damage values, constants, previous states",
     TEST_GAP + "A sign or volume mix-up in one branch of one material shows only for unequal volumes, one-sided neighbour lists or an unusual branch.",
     [M + "elastic.cxx", M + "elastic_bond_based.cxx", M + "elastic_plastic.cxx", M + "elastic_plastic_hardening.cxx", M + "viscoelastic.cxx",
      M + "nonlocal_diffusion.cxx", M + "linear_lps_pv.cxx", M + "pals.cxx", M + "Peridigm_CorrespondenceMaterial.cpp",
      M + "Peridigm_HypoelasticCorrespondenceMaterial.cpp", M + "Peridigm_BondAssociatedCorrespondenceMaterial.cpp", M + "correspondence.cxx"],
     [("pairwise accumulation of t*V on point and neighbour", M + "elastic.cxx: computeInternalForceLinearElastic"),
      ("correspondence force state scatter", M + "Peridigm_CorrespondenceMaterial.cpp: computeForce")],
     ["Force_Density field after computeForce"], claimed=True,
     note="15 material configurations; the whole computeForce body (and everything it calls in the repository) is evaluated; the local polar-decomposition routine and the stress rotation are represented by their frame only.")

prop("C02", "Central-force materials never create angular momentum",
     "For every bond-aligned material model (state-based and bond-based elastic, plastic, hardening, viscoelastic, thermoelastic, position-aware), the volume-weighted sum of the moments of the internal force densities about any origin, taken at the current positions, is exactly zero.",
     ["inputs", "configurations", "histories"],
     "all bodies, neighbour lists, volumes, current positions, damage values, constants, previous states",
     TEST_GAP + "Non-aligned bond forces cancel in symmetric two-point tests.",
     [M + "elastic.cxx", M + "elastic_bond_based.cxx", M + "elastic_plastic.cxx", M + "elastic_plastic_hardening.cxx", M + "viscoelastic.cxx", M + "nonlocal_diffusion.cxx", M + "pals.cxx"],
     [("force along the deformed bond", M + "elastic.cxx: computeInternalForceLinearElastic")],
     ["Force_Density and Coordinates fields after computeForce"])

prop("C03", "Weighted volume and dilatation follow their defining sums",
     "After initialisation the weighted volume of each point is the sum over its neighbours of influence times squared reference length times neighbour volume, and at every evaluation the dilatation is three over the weighted volume times the damage-weighted sum of influence, reference length, thermally corrected extension and neighbour volume. Each point's value depends only on its own neighbourhood.",
     ["inputs", "configurations"],
     "all bodies, neighbour lists, influence functions, horizons, volumes, damage values, temperatures",
     TEST_GAP + "Swapped volumes, a missing influence factor or an off-by-one in the bond offset is invisible on a uniform two-point grid.",
     [M + "material_utilities.cxx", M + "elastic.cxx", M + "Peridigm_ElasticMaterial.cpp", M + "Peridigm_ElasticPlasticMaterial.cpp", M + "Peridigm_ViscoelasticMaterial.cpp", M + "linear_lps_pv.cxx"],
     [("weighted volume sum", M + "material_utilities.cxx: computeWeightedVolume"), ("dilatation sum", M + "material_utilities.cxx: computeDilatation")],
     ["Weighted_Volume after initialize", "Dilatation after computeForce"])

prop("C04", "Elastic force laws equal the published constitutive law",
     "For the linear peridynamic solid (with thermal expansion and damage), the bond-based solid (three-dimensional, plane stress and plane strain), the linearised solid and the multiphysics solid, the force density at every point equals the model's constitutive law in terms of positions, volumes, bulk and shear modulus, influence function, damage and temperature change, and nothing but the documented output fields is modified.",
     ["inputs", "configurations"],
     "all bodies, neighbour lists, volumes, positions, damage values, temperatures, material constants",
     TEST_GAP + "Only one material constant pair and unit volumes are tried; several terms are zero there.",
     [M + "elastic.cxx", M + "elastic_bond_based.cxx", M + "linear_lps_pv.cxx", M + "nonlocal_diffusion.cxx", M + "Peridigm_ElasticMaterial.cpp", M + "Peridigm_ElasticBondBasedMaterial.cpp"],
     [("scalar force state", M + "elastic.cxx: computeInternalForceLinearElastic"), ("micromodulus", M + "elastic_bond_based.cxx: computeInternalForceElasticBondBased")],
     ["Force_Density, Partial_Stress, Dilatation fields after computeForce"])

prop("C05", "Forces are frame indifferent and vanish in the undeformed body",
     "Superposing a rigid translation or rotation on the current positions translates nothing and rotates the internal force densities with the body for every bond-aligned material, and a body carried rigidly from its reference configuration with no thermal or history-dependent strain feels no internal force.",
     ["inputs", "configurations"],
     "all bodies, neighbour lists, positions, damage values, translations, and a dense set of rotations",
     TEST_GAP + "No existing test applies a rotation.",
     [M + "elastic.cxx", M + "elastic_bond_based.cxx", M + "elastic_plastic.cxx", M + "viscoelastic.cxx", M + "nonlocal_diffusion.cxx", M + "pals.cxx"],
     [("forces depend on bond lengths and directions only", M + "elastic.cxx")],
     ["Force_Density after computeForce on rigidly moved coordinates"])

prop("C06", "A fully broken bond transmits no force",
     "When a bond's damage is one, the force densities of both end points are the same as if that bond's contribution were absent: neither the influence of that bond's geometry on the force of the point nor on its neighbour remains, for every ordinary state-based, bond-based and linearised material model.",
     ["inputs", "configurations", "histories"],
     "all bodies, neighbour lists, positions, damage fields, constants",
     TEST_GAP + "Damage is tested only at zero in the force-kernel tests.",
     [M + "elastic.cxx", M + "elastic_bond_based.cxx", M + "elastic_plastic.cxx", M + "viscoelastic.cxx", M + "nonlocal_diffusion.cxx"],
     [("(1 - damage) factors", M + "elastic.cxx: computeInternalForceLinearElastic")],
     ["Force_Density after computeForce with Bond_Damage one"])

prop("C07", "Plastic flow respects the yield surface and never runs backwards",
     "For the ordinary state-based plastic materials the deviatoric force state is the elastic trial state while the trial stays inside the yield surface and is scaled back exactly onto the yield surface otherwise; the equivalent plastic multiplier never decreases and the plastic extension changes only when the material yields.",
     ["inputs", "histories", "configurations"],
     "all bodies, positions, plastic histories, damage values, yield stresses, horizons",
     TEST_GAP + "The tests follow a single two-point load path.",
     [M + "elastic_plastic.cxx", M + "elastic_plastic_hardening.cxx", M + "Peridigm_ElasticPlasticMaterial.cpp", M + "Peridigm_ElasticPlasticHardeningMaterial.cpp"],
     [("radial return", M + "elastic_plastic.cxx: computeInternalForceIsotropicElasticPlastic")],
     ["Lambda, Deviatoric_Plastic_Extension, Force_Density after computeForce"])

prop("C08", "Viscoelastic relaxation follows the standard linear solid",
     "In every time step the back extension of each bond is advanced by the closed-form solution of the standard linear solid for a linearly varying deviatoric extension, the force combines the long-term and relaxing parts in the configured ratio, and with no relaxing part the force equals the purely elastic one.",
     ["inputs", "histories", "configurations"],
     "all bodies, positions at both steps, histories, time steps, relaxation times and moduli ratios",
     TEST_GAP + "One relaxation time and one step size are tried.",
     [M + "viscoelastic.cxx", M + "Peridigm_ViscoelasticMaterial.cpp"],
     [("back-extension update", M + "viscoelastic.cxx: computeInternalForceViscoelasticStandardLinearSolid")],
     ["Deviatoric_Back_Extension and Force_Density after computeForce"])

prop("C09", "Correspondence models reproduce affine deformation exactly",
     "The non-local deformation gradient at each point is the product of the influence-weighted deformed-bond moment and the inverse of the shape tensor of its own neighbourhood, so that for any affine motion it equals the gradient of that motion; rank-deficient neighbourhoods are reported rather than inverted.",
     ["inputs", "configurations"],
     "all bodies with invertible shape tensors, neighbour lists, volumes, damage values, affine motions",
     TEST_GAP + "Only axis-aligned stretches and shears of one cube are tried.",
     [M + "correspondence.cxx", M + "Peridigm_CorrespondenceMaterial.cpp"],
     [("shape tensor and deformation gradient", M + "correspondence.cxx: computeShapeTensorInverseAndApproximateDeformationGradient"),
      ("velocity gradient and rotation update", M + "correspondence.cxx: computeUnrotatedRateOfDeformationAndRotationTensor")],
     ["Deformation_Gradient, Shape_Tensor_Inverse fields"])

prop("C10", "Three-by-three tensor kernels compute what they are named for",
     "Matrix inversion returns the true inverse (or a failure code for singular input), products honour the transpose flags and scale factor, transposition, diagonal and Green-Lagrange strain operations equal their definitions, and rotating a stress by a rotation tensor is the congruence with that tensor.",
     ["inputs"],
     "all matrix entries, all points",
     TEST_GAP + "Spot values for a few matrices.",
     [M + "correspondence.cxx"],
     [("inverse", M + "correspondence.cxx: Invert3by3Matrix"), ("stress rotation", M + "correspondence.cxx: rotateCauchyStress"), ("strain", M + "correspondence.cxx: computeGreenLagrangeStrain")],
     ["output arrays of the kernels"])

prop("C11", "Correspondence stress updates stay on the yield surface",
     "The elastic stress update is the isotropic linear law; every plastic correspondence update (perfect, isotropic hardening) leaves the hydrostatic part elastic, keeps the deviatoric stress unchanged while inside the yield surface, returns it radially onto the updated yield surface otherwise, and the equivalent plastic strain never decreases.",
     ["inputs", "histories", "configurations"],
     "all stresses, rates of deformation, time steps, moduli, yield stresses and hardening moduli",
     TEST_GAP + "Uniaxial single-point paths only.",
     [M + "elastic_correspondence.cxx", M + "elastic_plastic_correspondence.cxx", M + "isotropic_hardening_correspondence.cxx", M + "viscoplastic_needleman_correspondence.cxx"],
     [("radial return", M + "elastic_plastic_correspondence.cxx"), ("hardening return", M + "isotropic_hardening_correspondence.cxx")],
     ["Cauchy stress, Von Mises stress and equivalent plastic strain arrays"])

prop("C12", "Scalar transport follows the flux law and moves from high to low",
     "For the heat, species and pore-pressure transport models the flux divergence at each point equals the model's bond sum of conductivity, influence kernel, potential difference and volume; uniform fields transport nothing, and where the model is pairwise the total is conserved.",
     ["inputs", "configurations"],
     "all bodies, neighbour lists, volumes, potential fields, horizons, coefficients",
     TEST_GAP + "A few-point regression value only.",
     [M + "nonlocal_diffusion.cxx", M + "Peridigm_DiffusionMaterial.cpp", M + "Peridigm_SpeciesConcentrationMaterial.cpp", M + "Peridigm_MultiphysicsElasticMaterial.cpp", M + "Peridigm_VectorPoissonMaterial.cpp"],
     [("flux sum", M + "nonlocal_diffusion.cxx")],
     ["Flux_Divergence / Fluid_Flux_Density fields"])

prop("C13", "Influence functions have compact support and their documented shape",
     "Every selectable influence function returns its documented profile of reference bond length and horizon, is zero outside the horizon where documented, and the function chosen by name in the input is the one used in every later evaluation.",
     ["inputs", "configurations"],
     "all bond lengths, horizons, names",
     TEST_GAP + "Only the constant function is exercised.",
     ["src/core/Peridigm_InfluenceFunction.cpp", "src/core/Peridigm_InfluenceFunction.hpp"],
     [("profiles", "src/core/Peridigm_InfluenceFunction.hpp"), ("selection", "src/core/Peridigm_InfluenceFunction.cpp: setInfluenceFunction")],
     ["value returned by the selected influence function"])

prop("C14", "Any admissible pair of elastic constants gives the same isotropic solid",
     "Whichever admissible pair among bulk modulus, shear modulus, Young's modulus and Poisson's ratio is given, the derived bulk and shear moduli satisfy the isotropic identities with the given ones, and a material stores exactly the constants and switches of its input.",
     ["inputs", "configurations"],
     "all values of each pair of constants",
     TEST_GAP + "One pair per material is tried.",
     [M + "Peridigm_Material.cpp", M + "Peridigm_ElasticMaterial.cpp"],
     [("conversion", M + "Peridigm_Material.cpp: calculateBulkModulus, calculateShearModulus")],
     ["moduli returned by the material"])

prop("C15", "Damage is irreversible and stays in range",
     "Under every damage model a bond's damage never decreases from one step to the next and stays within its starting range, so that no broken bond ever heals, whatever the motion.",
     ["inputs", "histories", "configurations"],
     "all motions, bodies, neighbour lists, damage histories, damage models",
     TEST_GAP + "Tests load monotonically; healing needs unloading after failure.",
     ["src/damage/Peridigm_CriticalStretchDamageModel.cpp", "src/damage/Peridigm_InterfaceAwareDamageModel.cpp", "src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp", "src/damage/Peridigm_JohnsonCookDamageModel.cpp", "src/damage/Peridigm_VonMisesStressDamageModel.cpp", "src/damage/Peridigm_InitialDamageModel.cpp"],
     [("carry-over from the previous step", "src/damage/Peridigm_CriticalStretchDamageModel.cpp: computeDamage")],
     ["Bond_Damage at both steps after computeDamage"])

prop("C16", "Bonds break exactly when the criterion is met, and damage is the fraction",
     "A bond breaks in a step exactly when its (thermally corrected) stretch, or the model's stress criterion, exceeds the threshold of its block, material interface or time; the damage reported for a point is the fraction of its bonds' damage, zero for a point without neighbours.",
     ["inputs", "histories", "configurations"],
     "all motions, bodies, neighbour lists, thresholds, temperatures",
     TEST_GAP + "Two-point bodies with one bond cannot distinguish fraction, count and last value.",
     ["src/damage/Peridigm_CriticalStretchDamageModel.cpp", "src/damage/Peridigm_InterfaceAwareDamageModel.cpp", "src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp"],
     [("criterion and fraction", "src/damage/Peridigm_CriticalStretchDamageModel.cpp: computeDamage")],
     ["Bond_Damage and Damage fields"])

prop("C17", "Contact is repulsive, balanced and absent beyond its radius",
     "Contact forces vanish for every pair further apart than the contact radius and equal the short-range law inside it, act equally and oppositely on both points, repel along the line of centres without friction, and friction acts against the relative tangential velocity and is bounded by the friction coefficient times the normal force.",
     ["inputs", "configurations", "histories"],
     "all bodies, contact lists, positions, velocities, radii, stiffnesses, friction coefficients",
     TEST_GAP + "One head-on pair is tried.",
     ["src/contact/Peridigm_ShortRangeForceContactModel.cpp", "src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp"],
     [("short-range force law", "src/contact/Peridigm_ShortRangeForceContactModel.cpp: computeForce")],
     ["Contact_Force_Density after computeForce"])

prop("C18", "The critical time step is the minimum over all points",
     "The stable time step estimate equals the smallest over all points of the square root of twice the density over the bond stiffness sum of that point, so it never exceeds the bound of any point.",
     ["inputs", "configurations"],
     "all bodies, neighbour lists, volumes, densities, moduli, horizons",
     TEST_GAP + "Uniform grids have the same bound at every interior point.",
     ["src/core/Peridigm_CriticalTimeStep.cpp"],
     [("minimum over points", "src/core/Peridigm_CriticalTimeStep.cpp: ComputeCriticalTimeStep")],
     ["returned time step"])

prop("C19", "Each explicit step is exactly one velocity-Verlet step",
     "In explicit dynamics each time step advances velocity by half a step, positions and displacements by a full step with that velocity, evaluates the forces there, sets acceleration to (internal plus contact plus external force) over density and completes the velocity with the other half step, for every point and any number of steps.",
     ["inputs", "histories", "configurations"],
     "all states, force fields, densities, time steps, step counts",
     TEST_GAP + "Regression runs compare final fields of a few examples with loose tolerances.",
     ["src/core/Peridigm.cpp"],
     [("time loop", "src/core/Peridigm.cpp: executeExplicit")],
     ["displacement, velocity, acceleration fields after a step"])

prop("C20", "Boundary and initial conditions touch exactly their degrees of freedom",
     "A prescribed condition assigns its value (or increment over the step, scaled for the target field) to exactly the named component of the nodes in its node set and leaves every other entry unchanged; reactions and constrained residuals are taken exactly at prescribed degrees of freedom.",
     ["inputs", "configurations"],
     "all node sets, components, values, times, degree-of-freedom layouts",
     TEST_GAP + "A single node set and constant functions.",
     ["src/core/Peridigm_BoundaryCondition.cpp", "src/core/Peridigm_BoundaryAndInitialConditionManager.cpp"],
     [("Dirichlet application", "src/core/Peridigm_BoundaryCondition.cpp: DirichletBC::apply, DirichletIncrementBC::apply")],
     ["target vectors after apply"])

prop("C21", "Stored state is copied and swapped without loss",
     "Copying locally owned data between field stores transfers exactly the matching values of every field and point, rebalancing or scattering preserves every value, and advancing the step makes the new state the old one.",
     ["inputs", "histories", "configurations"],
     "all field sets, point counts, per-bond data lengths, histories",
     TEST_GAP + "A few fields on one processor.",
     ["src/core/Peridigm_State.cpp", "src/core/Peridigm_DataManager.cpp"],
     [("state copy", "src/core/Peridigm_State.cpp: copyLocallyOwnedMultiVectorData"), ("swap", "src/core/Peridigm_DataManager.cpp: updateState")],
     ["field values read back from the store"])

prop("C22", "Regular discretisations place every point with the right volume",
     "Structured grids place each cell's point at the cell centre, in the enumeration order of its identifier, with the cell volume, and the cells partition the body: the volumes sum to the body volume.",
     ["inputs", "configurations"],
     "all extents, cell counts, origins",
     TEST_GAP + "A few small grids.",
     ["src/io/mesh_input/quick_grid/QuickGrid.cxx"],
     [("point generation", "src/io/mesh_input/quick_grid/QuickGrid.cxx")],
     ["coordinates, volumes and identifiers of the generated grid"])

prop("C23", "Bond filters remove exactly the bonds that cross the cut",
     "A cut through a rectangle, disk, triangle or quadrilateral removes a bond exactly when the segment between its end points meets that finite surface, and never removes or keeps one because of list position. The default filter removes only the point itself.",
     ["inputs"],
     "all rectangles, disks, triangles, quadrilaterals, candidate lists and bond end points",
     TEST_GAP + "Grid-aligned bonds against an axis-aligned plane.",
     ["src/io/pdneigh/BondFilter.cxx"],
     [("intersection", "src/io/pdneigh/BondFilter.cxx")],
     ["flags set by the filter"])

prop("C24", "Derived output quantities equal their definitions",
     "Reported energies, momenta, radii, neighbourhood counts and volumes, force and acceleration fields equal their defining expressions of mass, volume, velocity, force and neighbourhood at every point, and reported totals are the sums over the points.",
     ["inputs", "configurations", "histories"],
     "all bodies, neighbour lists, fields",
     TEST_GAP + "Tests use one uniform two-point field.",
     ["src/compute/"],
     [("compute classes", "src/compute/Peridigm_Compute_*.cpp: compute")],
     ["computed output fields"])

prop("C25", "Stored energy is the work potential of the force law",
     "The stored elastic energy density reported by a material equals half the bulk modulus times dilatation squared plus the deviatoric bond energy of its model, and is zero for every rigid motion of the undamaged reference body.",
     ["inputs", "configurations"],
     "all bodies, neighbour lists, positions, damage values, moduli",
     TEST_GAP + "The energy is compared for one deformation only.",
     [M + "Peridigm_ElasticMaterial.cpp", M + "Peridigm_Pals_Model.cpp", M + "pals.cxx"],
     [("energy sum", M + "Peridigm_ElasticMaterial.cpp: computeStoredElasticEnergyDensity")],
     ["Stored_Elastic_Energy_Density field"])

prop("C26", "Neighbour lists hold exactly the points within the horizon",
     "The neighbour list of every point consists of exactly the other points whose reference distance does not exceed its horizon, independent of the partition into processors.",
     ["inputs", "configurations"],
     "all point clouds, horizons, partitions",
     TEST_GAP + "Regular grids only.",
     ["src/io/Peridigm_ProximitySearch.cpp", "src/io/pdneigh/NeighborhoodList.cxx", "src/io/Peridigm_JAMSearchTree.cpp", "src/io/Peridigm_ZoltanSearchTree.cpp"],
     [("search", "src/io/Peridigm_ProximitySearch.cpp")],
     ["neighbourhood lists"],
     na="the search is a chain of std::vector/std::set/MPI and kd-tree container operations (dynamic allocation inside data-dependent loops, third-party trees); no contract within reach of the verifier expresses the container contents")

prop("C27", "Assembly into the tangent matrix is additive and placed by global index",
     "Adding element contributions to the global tangent adds exactly the given values at the rows and columns of the corresponding global degrees of freedom and nothing elsewhere.",
     ["inputs", "configurations"],
     "all index lists and values",
     TEST_GAP + "One small pattern.",
     ["src/core/Peridigm_SerialMatrix.cpp", M + "Peridigm_Material.cpp"],
     [("addValues", "src/core/Peridigm_SerialMatrix.cpp")],
     ["tangent matrix entries"])

prop("C28", "Hourglass stabilisation never acts on affine motion",
     "The zero-energy-mode suppression force is exactly zero wherever the deformed bonds are reproduced by the deformation gradient, is balanced pairwise, and otherwise opposes the non-affine part of the bond deformation in proportion to the hourglass coefficient.",
     ["inputs", "configurations"],
     "all bodies, neighbour lists, volumes, deformation gradients, coefficients",
     TEST_GAP + "Hourglass control is switched off in most tests.",
     [M + "correspondence.cxx"],
     [("hourglass force", M + "correspondence.cxx: computeHourglassForce")],
     ["Hourglass_Force_Density field"])

prop("C29", "The incremental rotation of the correspondence models is a rotation",
     "Whatever the velocity gradient and the time step, the increment by which a correspondence model rotates its material frame in one step is an exactly orthogonal tensor, the identity for a motion without spin, and turns the frame in the sense of the spin, so that stress carried through a rigid rotation keeps its magnitude.",
     ["inputs", "histories", "configurations"],
     "all velocity gradients, stretches, previous rotations, time steps, neighbourhoods",
     "The tests compare single steps with stored numbers at a loose tolerance, and the error of a wrong second-order term is invisible there but accumulates over a history of rotations.",
     [M + "correspondence.cxx"],
     [("Rodrigues form of the increment", M + "correspondence.cxx: computeUnrotatedRateOfDeformation and its hypoelastic and bond-associated variants")],
     ["Rotation_Tensor field after computeForce"])
