#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays one valid line per property)."""
import json, os
P = []
D = "src/PROPOSAL/detail/PROPOSAL/"
H = "src/PROPOSAL/PROPOSAL/"


def add(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})


add("G01", "Border distances are the ray's true boundary crossings",
    "For every sphere, cylinder or box (solid or hollow, anywhere in space) and every position and unit direction, the reported pair is the distance at which the ray enters and then leaves the next piece of material ahead, (exit, -1) when the position is already in the material, and (-1, -1) when no material lies ahead. Positive distances are ordered and at least the geometry precision; walking a reported distance along the direction lands on the surface.",
    ["inputs"], "all shapes, sizes, inner radii, placements, positions (outside, in the wall, in the cavity, on the border) and directions (random, axis parallel, through edges and corners)",
    "Tests use a few hand-placed rays per shape; hollow bodies have many entry/exit orders (wall-cavity-wall, through an end cap into the hole) and boundary/degenerate rays that no finite table covers.",
    [D + "geometry/Sphere.cxx", D + "geometry/Cylinder.cxx", D + "geometry/Box.cxx"],
    [("Geometry::DistanceToBorder", D + "geometry/{Sphere,Cylinder,Box}.cxx")])
add("G02", "Containment answers partition space and match the solid",
    "For every geometry, position and direction exactly one of in front, inside and behind holds; inside is reported exactly when the position lies in the material, and a trajectory on the outer border is entering or leaving exactly when it moves into or out of the material. The distance to the closest approach is the signed path length at which the ray is nearest to the centre.",
    ["inputs"], "all geometries, positions and directions",
    "Each test asserts one predicate at chosen points; agreement of all predicates with the solid must hold at every point and direction, including border points.",
    [D + "geometry/Geometry.cxx"], [("IsInside/IsInfront/IsBehind/IsEntering/IsLeaving/GetLocation", D + "geometry/Geometry.cxx"), ("DistanceToClosestApproach", D + "geometry/Geometry.cxx")])
add("G03", "A configured geometry is the geometry that was described",
    "A geometry created from a configuration has exactly the shape, centre, dimensions (including a fractional inner radius) and hierarchy written there and behaves like the one built from the same numbers; malformed or unphysical descriptions are rejected with an exception. Copies compare equal, stay equal in behaviour and are independent; geometries that differ in any parameter compare unequal.",
    ["configurations", "histories"], "all valid descriptions, all single-field corruptions, and copy/assign/modify sequences",
    "Tests never build geometries from configuration with arbitrary numbers and compare only a few hand-made pairs.",
    [D + "geometry/GeometryFactory.cxx", D + "geometry/Geometry.cxx"], [("CreateGeometry(json)", D + "geometry/GeometryFactory.cxx"), ("operator==", D + "geometry/Geometry.cxx")])
add("D01", "Grammage is the line integral of density, and its inverse is exact",
    "For every density profile, start point and direction, the mass column of a step equals the integral of the local mass density along the step, is zero for a zero step, additive over consecutive steps and growing with the step. The step length computed for a given mass column, whenever one exists in the allowed range, crosses exactly that column; when none exists an error is raised instead of a wrong length.",
    ["inputs"], "homogeneous, exponential, polynomial and spline profiles on Cartesian and radial axes; all start points, directions and step lengths inside the profile's domain",
    "Existing tests check a few straight-line cases on one axis; the identity must hold for every profile shape, orientation and step.",
    [D + "density_distr/density_exponential.cxx", D + "density_distr/density_polynomial.cxx", D + "density_distr/density_splines.cxx", D + "density_distr/density_homogeneous.cxx", D + "density_distr/density_distr.cxx"],
    [("Density_distribution::Calculate/Correct/Integrate/Evaluate", D + "density_distr/*.cxx"), ("CartesianAxis, RadialAxis", D + "density_distr/density_distr.cxx")])
add("D02", "Density profiles copy and configure faithfully",
    "A density profile built from a configuration or copied from another one evaluates, integrates and inverts identically to its original, compares equal to it, and stays valid and unchanged when the original is modified or destroyed. Profiles with different parameters compare unequal.",
    ["configurations", "histories"], "all profile kinds, axes, parameters and copy/clone/destroy orders",
    "Ownership errors only show when the original dies first; tests keep all objects alive and compare one or two pairs.",
    [D + "density_distr/density_distr.cxx", D + "density_distr/density_splines.cxx", D + "density_distr/density_polynomial.cxx"],
    [("CreateDensityDistribution, copy constructors, clone, operator==", D + "density_distr/*.cxx")])
add("V01", "Vector algebra and coordinate conversions are consistent",
    "For all vectors the Cartesian and spherical representations describe the same point, sums, differences, scalings, scalar and vector products satisfy the identities of three-dimensional Euclidean algebra, and normalising gives unit length without turning the vector. The representation used for an operand never changes the result.",
    ["inputs"], "vectors over many orders of magnitude, on the axes, at the poles, and mixed representations",
    "Tests use a handful of vectors away from the poles and from extreme magnitudes.",
    [D + "math/Cartesian3D.cxx", D + "math/Spherical3D.cxx", D + "math/Vector3D.cxx"],
    [("Cartesian3D/Spherical3D operators and conversions", D + "math")])
add("V02", "Deflecting a direction turns it by exactly the requested angle",
    "Deflecting any direction by a polar angle and an azimuth yields a unit vector that encloses exactly that polar angle with the original one; deflections by different azimuths lie on the same cone at exactly the azimuth difference from each other, and a zero angle leaves the direction unchanged.",
    ["inputs"], "all directions, including both poles and their neighbourhood, and all angle pairs",
    "A single test checks a few angles around one axis; pole handling and azimuth orientation need all directions.",
    [D + "math/Cartesian3D.cxx"], [("Cartesian3D::deflect", D + "math/Cartesian3D.cxx")])
add("M01", "Root finders return a root of the bracketed function",
    "For every continuous function with a sign change on the given interval, bisection and the bracketed Newton iteration return a point inside the interval that is a root to the requested accuracy; when the ends do not bracket a root an error is raised rather than an arbitrary point.",
    ["inputs"], "polynomial, exponential, trigonometric, steep and flat functions with roots anywhere in the bracket (also at its ends)",
    "Two tests with one function each cannot show convergence for all shapes of function and positions of the root.",
    [D + "math/MathMethods.cxx"], [("NewtonRaphson, Bisection", D + "math/MathMethods.cxx")])
add("M02", "Polynomials and splines obey calculus",
    "A polynomial's value, derivative, antiderivative and shift agree with its coefficients; a spline passes through its nodes, is continuous with continuous slope where its order promises it, and the spline's derivative and antiderivative are those of the curve it evaluates. Copies and saved-then-loaded objects describe the same curve.",
    ["inputs", "histories"], "random coefficients, node sets and evaluation points; copy, shift, derive, save and load sequences",
    "No test covers these classes for arbitrary coefficients or after copying and shifting.",
    [D + "math/Function.cxx", D + "math/Spline.cxx"], [("Polynom", D + "math/Function.cxx"), ("Linear_Spline, Cubic_Spline", D + "math/Spline.cxx")])
add("M03", "Samplers are the inverse of the distribution they claim",
    "Sampling from the exponential and the truncated normal distribution maps a uniform number monotonically to a value inside the allowed range whose cumulative probability is that number; the normal quantile function is antisymmetric and inverts the normal integral.",
    ["inputs"], "all means, widths, truncation ranges and random numbers in (0,1), including far tails",
    "Tests compare moments of one parameter set within statistical errors.",
    [D + "math/MathMethods.cxx"], [("SampleFromExponential, SampleFromGaussian, normalppf", D + "math/MathMethods.cxx")])
add("I01", "Numerical integrals equal the analytic integral within precision",
    "For every smooth integrand that the method's sampling resolves and every pair of limits each integration method returns the analytic integral to the requested precision, changes sign when limits are swapped, is additive over adjacent intervals and is zero for equal limits.",
    ["inputs"], "polynomial, exponential, power-law, rational and oscillating integrands, all five methods, all limits valid for the method",
    "Tests integrate x^2-like functions over a few intervals.",
    [D + "math/Integral.cxx"], [("Integral::Integrate*", D + "math/Integral.cxx")])
add("I02", "Partial integrals invert: the sampled limit carries the requested share",
    "For a positive integrand, after integrating with a random share r the reported upper limit lies between the limits and the integral up to it is r times the whole, within the precision of the method; the reported limit never decreases with r.",
    ["inputs"], "positive integrands of different shape, all random shares, both substitution methods",
    "Tests check a single share of one function.",
    [D + "math/Integral.cxx"], [("IntegrateWithRandomRatio, GetUpperLimit", D + "math/Integral.cxx")])
add("I03", "An integrator's answers do not depend on its history",
    "An integrator reused for any sequence of integrals, limits, settings, copies, assignments and swaps returns for each integral the value a fresh integrator with the same settings returns, and copies remain usable after the original is gone. No sequence of documented calls makes it touch memory it does not own.",
    ["histories"], "random sequences of integrate, invert, reconfigure, copy, assign, swap and destroy operations",
    "Tests integrate once per object; stale state and dangling callbacks only show over call sequences.",
    [D + "math/Integral.cxx", H + "math/Integral.h"], [("Integral copy/swap/operator=, SetMaxSteps..., IntegrateWithRandomRatio", D + "math/Integral.cxx")])
add("T01", "Interpolation reproduces the tabulated function",
    "A table built from a smooth function, for every axis spacing, transformation, interpolation order and combination of options, returns the tabulated value at a node and approximates the function between nodes with an error that vanishes as nodes are added; for monotonic functions searching for the argument of a value returns an argument with that value.",
    ["configurations", "inputs"], "1D and 2D tables, linear/logarithmic axes, rational/relative/log options, orders, node counts, and query points inside the range",
    "Tests compare to frozen tables for a few option sets at fixed points.",
    [D + "math/Interpolant.cxx"], [("Interpolant constructors, Interpolate, FindLimit, InterpolateArray", D + "math/Interpolant.cxx")])
add("T02", "Interpolation tables survive copying and saving",
    "A table that was copied, assigned, swapped or written to disk (text or binary) and read back returns the same values as the original for every query and can itself be saved and loaded again; loading a missing, truncated or structurally damaged file is reported as failure, never crashes and leaves the loading table as it was.",
    ["histories", "fault_sequences"], "random tables; sequences of copy, assign, swap, save, load; every kind of file damage",
    "Tests save and load one intact table in each format.",
    [D + "math/Interpolant.cxx"], [("Interpolant::Save/Load/swap/operator=/copy", D + "math/Interpolant.cxx")])
add("R01", "Random streams are reproducible and restorable",
    "After the same seed the generator yields the same sequence of numbers in [0,1), different seeds yield different sequences, a saved state restores exactly the stream from the point of saving, and a custom source is used verbatim until it is replaced.",
    ["histories"], "interleavings of seed, draw, save, load and source replacement",
    "No test exercises interleaved save/restore or replacement histories.",
    [D + "math/RandomGenerator.cxx"], [("RandomGenerator", D + "math/RandomGenerator.cxx")])
add("S01", "Particle definitions and particle states are self-consistent",
    "A particle's momentum and energy always satisfy the mass-shell relation; every built-in definition is returned by its type number with mass, lifetime, charge and decay products belonging to it, antiparticles mirror their particle, a definition built from another differs only in the fields that were changed, and a type number never stands for two different definitions.",
    ["inputs", "histories"], "all built-in particles, all energies and momenta, random builder sequences, registration of user-defined particles",
    "Tests check a few particles and one momentum.",
    [D + "particle/Particle.cxx", D + "particle/ParticleDef.cxx"], [("ParticleState::SetEnergy/SetMomentum", D + "particle/Particle.cxx"), ("ParticleDef, Builder, GetParticleDefForType, GetParticleDefForHash", D + "particle/ParticleDef.cxx")])
add("E01", "Material constants follow from the composition",
    "For every built-in medium and every user-defined mixture the derived constants (nucleon and charge sums, charge-to-mass ratio, molar density, mean nucleon weight, radiation length) equal their definition in terms of components and mass density; scaling all atom counts by a common factor leaves the intensive ones unchanged. The built-in compositions reproduce the published charge-to-mass ratios and radiation lengths. Every medium can be created by its name in any letter case and by its type with identical results and is found again by its hash.",
    ["configurations"], "all built-in components and media and random mixtures",
    "Tests compare a couple of media for equality; constants are never recomputed from composition.",
    [D + "medium/Medium.cxx", D + "medium/Components.cxx", D + "medium/MediumFactory.cxx"], [("Medium ctor, init, X0_inv, CreateMedium, hash maps", D + "medium")])
add("C01", "Energy cuts are consistently the smaller of both limits",
    "For all cut settings and energies the cut is the smaller of the absolute cut over the energy and the relative cut, bounded by the kinematic limits of the process: never below its minimum or above its maximum. Invalid settings are rejected, configuration and constructor agree, settings that differ in any field compare unequal, and settings that give different cuts have different fingerprints.",
    ["inputs", "configurations"], "all absolute/relative/randomisation settings (also infinite), energies and kinematic limits",
    "Tests check a handful of values of one limit each.",
    [D + "EnergyCutSettings.cxx"], [("EnergyCutSettings", D + "EnergyCutSettings.cxx")])
add("K01", "Every decay conserves four-momentum and keeps products on shell",
    "For every decay channel, parent energy, direction and random history, the energies and momenta of the decay products sum to those of the decaying particle, each product has its own mass, unit direction, the parent's position and time, and the products are those of the channel. In the rest frame the products are emitted isotropically and the lepton energy of a leptonic decay follows the decay spectrum.",
    ["inputs", "schedules"], "all built-in and random two-body, leptonic and many-body channels, parent energies from rest to ultra-relativistic, all directions and seeds",
    "Tests of decay spectra compare histograms; conservation must hold event by event for every random draw.",
    [D + "decay/DecayChannel.cxx", D + "decay/LeptonicDecayChannel.cxx", D + "decay/TwoBodyPhaseSpace.cxx", D + "decay/ManyBodyPhaseSpace.cxx"], [("Decay(), Boost, Momentum", D + "decay/*.cxx")])
add("K02", "Decay channels are chosen with their branching ratios",
    "For every decay table the channel chosen for a uniform number follows the cumulative normalised branching ratios, so that each added channel is selected in proportion to its ratio, whatever the order or values of the ratios (equal ratios included); stable particles never produce decay products. Copies of a table or channel choose and decay identically and independently of the original's lifetime; tables with other ratios or products compare unequal.",
    ["inputs", "histories"], "random tables (equal, tiny, unnormalised ratios) and random numbers; copy/assign histories",
    "Tests select channels of three built-in particles with a couple of random numbers.",
    [D + "decay/DecayTable.cxx"], [("DecayTable::SelectChannel/addChannel/SetStable/copy", D + "decay/DecayTable.cxx")])
add("K03", "Built-in decays respect charge, lepton number and CP mirror",
    "Every channel in the built-in decay tables conserves electric charge and each lepton-family number and is energetically allowed and occurs once; the channels are chosen in the published proportions, and an antiparticle decays into the antiparticles of its particle's products with the same ratios.",
    ["configurations"], "all built-in particles and all their decay channels",
    "No test inspects the composition of the built-in decay tables.",
    [D + "particle/ParticleDef.cxx", D + "decay/DecayTable.cxx"], [("built-in decay tables", D + "particle/ParticleDef.cxx")])
add("X01", "Differential cross sections live on valid kinematic ranges",
    "For every process, parametrisation, particle, target and energy above threshold, the kinematic limits are ordered within [0,1] and the differential cross section is finite and non-negative everywhere between them; below the threshold the range is empty or the process is reported as impossible.",
    ["inputs", "configurations"], "all available parametrisations x particles x targets x energies (threshold to 1e14 MeV) x relative losses incl. limits",
    "Tests compare tabulated values at a few energies and losses.",
    [D + "crosssection/parametrization/"], [("GetKinematicLimits, DifferentialCrossSection, GetLowerEnergyLim", D + "crosssection/parametrization/*.cxx")])
add("X02", "Cross sections obey their exact symmetries",
    "Cross sections of a particle and its antiparticle agree for charge-even processes, depend on the projectile only through its mass and charge with the charge dependence of the theory, scale with the number of target atoms per unit mass, and correction factors (screening, suppression, shadowing) and multipliers act only as the documented factor.",
    ["inputs", "configurations"], "all parametrisations, particle/antiparticle pairs, targets, energies and losses",
    "Tables in tests fix single numbers; relations between configurations are never checked.",
    [D + "crosssection/parametrization/"], [("DifferentialCrossSection", D + "crosssection/parametrization/*.cxx")])
add("X03", "Differential cross sections follow the published formulas",
    "For every named parametrisation the differential cross section equals the published formula it is named after, evaluated independently from the particle and target constants, within numerical precision over the whole kinematic range, and its kinematic limits and threshold are the published ones.",
    ["inputs", "configurations"], "parametrisations with closed published form x particles x targets x energies x losses",
    "The reference-table tests sample a fixed grid, and branches of piecewise formulas off that grid stay unobserved.",
    [D + "crosssection/parametrization/"], [("DifferentialCrossSection", D + "crosssection/parametrization/*.cxx")])
add("X04", "Mean losses and rates are the integrals of the differential cross section",
    "The continuous loss, its second moment and the stochastic interaction rate reported for any parametrisation, target, energy and cut equal the integrals of v, v^2 and 1 times the differential cross section over the part of the kinematic range below respectively above the cut; none is negative, and for any two cuts the difference in continuous loss and in rate is exactly what lies between them.",
    ["inputs", "configurations"], "all parametrisations, media, energies, absolute and relative cuts",
    "Tests compare a grid of totals for fixed cuts; identity with the integral and additivity over cuts need all settings.",
    [D + "crosssection/CrossSectionDEDX/", D + "crosssection/CrossSectionDE2DX/", D + "crosssection/CrossSectionDNDX/"], [("CrossSectionDEDXIntegral, DE2DXIntegral, DNDXIntegral", D + "crosssection/CrossSectionD*")])
add("X05", "A sampled stochastic loss reproduces the requested rate",
    "For every share of the interaction rate the sampled relative loss lies between the cut and the kinematic maximum, the rate accumulated up to it equals the requested one, the loss grows monotonically with the share, and a rate beyond the total never gives a loss inside the range.",
    ["inputs"], "all parametrisations, targets, energies, cuts and random shares",
    "Tests compare single sampled losses to frozen numbers.",
    [D + "crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx", D + "crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx"], [("CrossSectionDNDXIntegral::GetUpperLimit, Calculate", D + "crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx")])
add("X06", "Different physics never shares a fingerprint",
    "Fingerprints that key stored tables are equal for equal configurations and different for configurations that give different cross sections: changing the parametrisation, particle mass, charge or lifetime, target, cut, or any option changes the fingerprint; recomputing it in the same or another process does not.",
    ["configurations"], "all pairs of available parametrisations, options, particles, targets and cuts",
    "Collisions need comparing all pairs of configurations; tests compare none.",
    [D + "crosssection/parametrization/Parametrization.cxx", H + "crosssection/parametrization/Parametrization.h", D + "particle/ParticleDef.cxx", D + "medium/Medium.cxx", D + "EnergyCutSettings.cxx"], [("GetHash, hash_combine", H + "crosssection/parametrization/Parametrization.h")])
add("L01", "Multiple scattering keeps directions physical and follows its width",
    "For every particle, medium, step and random numbers the mean and final directions after multiple scattering are unit vectors, the final direction encloses exactly the sampled angle with the initial one (a right angle when the sampled offsets exceed one), angles scale with the theoretical width for that step, momentum and charge, and no step or no charge means no deflection.",
    ["inputs"], "all charged particles, media, energies, step sizes, directions and random numbers",
    "Tests fix some seeds; norm and scaling must hold for all draws and directions, including poles and very large angles.",
    [D + "scattering/multiple_scattering/Highland.cxx", D + "scattering/multiple_scattering/Parametrization.cxx"], [("Highland::CalculateTheta0, ScatterInitialDirection", D + "scattering/multiple_scattering")])
add("L02", "Stochastic deflections are physical angles",
    "For every deflection model, energy before and after the loss, target and random numbers, the deflection of a particle that is still moving afterwards is a finite, non-negative polar angle with an azimuth over the full circle, and uses exactly the announced number of random numbers; models that follow from the kinematics of the process give the angle of that kinematics, between zero and pi, and van Ginneken's models follow their published widths.",
    ["inputs"], "all models, projectiles, targets, energy pairs and random numbers",
    "Tests check frozen sums for a few energies; rare branches at the kinematic edge are unobserved.",
    [D + "scattering/stochastic_deflection/"], [("CalculateStochasticDeflection", D + "scattering/stochastic_deflection/parametrization/*.cxx")])
add("L03", "Moliere and integrated Highland scattering follow their distributions",
    "For every particle, medium, step and random number a scattering angle by Moliere's theory is the quantile of Moliere's distribution for that step, charge and composition (nothing for neutral particles or too few scatterings), and the width of the integrated Highland model is the integral of its formula over the energies of the step; the tabulated versions agree within interpolation precision. Answers do not depend on what was asked before, copies outlive their originals, equal models compare equal. A container of scattering models asks exactly the models it was given, applies exactly its factors, and names of unknown models are refused.",
    ["inputs", "histories"], "particles of any mass and charge, media of one to four elements, steps, energies, random numbers, names in any letter case",
    "The existing tests need the interpolation library and compare stored angles for a few settings; nothing checks the distribution itself.",
    [D + "scattering/multiple_scattering/Moliere.cxx", D + "scattering/multiple_scattering/HighlandIntegral.cxx", H + "scattering/Scattering.h", H + "scattering/ScatteringMultiplier.h"],
    [("Moliere::GetRandom", D + "scattering/multiple_scattering/Moliere.cxx"), ("HighlandIntegral::CalculateTheta0", D + "scattering/multiple_scattering/HighlandIntegral.cxx")])
add("Y01", "Produced secondaries conserve energy and momentum",
    "For every interaction model and random numbers, the energies of the surviving and produced particles sum to the energy before the interaction (up to the rest masses supplied by the target), every one is at least its rest mass, all directions are unit vectors and position and time are those of the interaction; models that fix angles by two-body kinematics conserve momentum as well, the split of energy between the members of a pair follows the differential cross section, and an interaction without a model is refused with an error. The outcome follows from the random numbers handed over alone; the global random stream is left as it was.",
    ["inputs", "schedules"], "all secondaries models, projectiles, targets, losses over the allowed range, directions and random numbers",
    "The existing secondaries tests are averages over some events with fixed energies.",
    [D + "secondaries/parametrization/"], [("CalculateSecondaries", D + "secondaries/parametrization/*")])
add("Y02", "Secondaries drawn from tabulated cross sections are physical",
    "For annihilation, pair production by photons (electrons and muons) and charged-current weak interactions with prepared tables, the products are the expected particles at the place and time of the interaction, their energies sum to the energy supplied (plus the electron mass for annihilation), each is at least its rest mass, all directions are unit vectors, the members of a pair leave on opposite sides under the angle of the model, the two annihilation photons balance momentum, and the share of energy is the requested quantile of the differential cross section. Targets without a table are refused, and the global random stream is left as it was.",
    ["inputs"], "the models, media and targets, energies from the threshold to 1e10 MeV, directions and random numbers (0 and 1 approached)",
    "The existing tests need the interpolation library and compare averages at fixed energies; small shares at high energies never show there.",
    [D + "secondaries/parametrization/annihilation/", D + "secondaries/parametrization/photopairproduction/", D + "secondaries/parametrization/photomupairproduction/", D + "secondaries/parametrization/weakinteraction/"],
    [("CalculateSecondaries", D + "secondaries/parametrization/*"), ("CrossSectionDNDX::GetUpperLimit", D + "crosssection/CrossSectionDNDX/")])
add("W01", "Integral propagation utilities invert their own integral",
    "For every positive rate function, the upper limit found for an accumulated value between start energy and the lower limit reproduces that value when integrated back, lies between the energies, moves monotonically with the value, and saturates or fails as documented when the value cannot be reached.",
    ["inputs"], "positive rate functions, energy intervals in both directions and accumulated values",
    "Tests use one linear function and few values.",
    [D + "propagation_utility/PropagationUtilityIntegral.cxx"], [("UtilityIntegral::Calculate, GetUpperLimit", D + "propagation_utility/PropagationUtilityIntegral.cxx")])
add("Z01", "Shared read-only objects can be queried from several threads",
    "Geometries, density profiles, media, particle definitions, and the parametrisations and scattering models that hold no interpolation table, when they are only read, may be queried by several threads at once: there is no data race and each thread gets the single-threaded answer.",
    ["schedules"], "threads querying shared constant objects with random interleavings",
    "No existing test starts a thread; hidden caches or static scratch buffers are invisible to sequential tests.",
    [D + "geometry/", D + "density_distr/", D + "medium/", D + "crosssection/parametrization/"], [("const member functions", D)])
add("P01", "A propagated track is a physically possible history",
    "Along every propagated track energy never increases, distance and time never decrease, consecutive points are separated by the recorded path at no more than light speed, directions stay unit vectors; every continuous loss uses up the column depth it needs in the matter it crosses, every interaction belongs to a process of that matter and exceeds the cut, interactions and decays occur as often as their rates say, and the track ends at the distance limit, energy limit, decay, fatal loss or outer border it was stopped by.",
    ["inputs", "schedules", "configurations"], "charged leptons and photons in one or several sectors, energies, cuts, seeds and stop conditions",
    "Tests propagate a few fixed seeds and compare averages.",
    [D + "Propagator.cxx", D + "Secondaries.cxx"], [("Propagator::Propagate", D + "Propagator.cxx")])
add("P02", "All energy a particle loses on a track is accounted for",
    "The energies of the recorded stochastic losses, continuous losses and final particle sum to the initial energy; queries of a track by energy, distance or geometry return states on that track, and losses inside plus outside a geometry are all losses.",
    ["inputs", "schedules"], "tracks of all particles, seeds, cuts and query points",
    "Energy bookkeeping has to close on every random history, not for a few seeds.",
    [D + "Secondaries.cxx", D + "Propagator.cxx"], [("Secondaries queries", D + "Secondaries.cxx")])
add("P03", "Equal seeds give equal tracks",
    "Propagating the same initial state with the same configuration and seed gives bit-identical tracks, whatever was propagated before and whether the propagator is reused or newly built; different seeds give different tracks.",
    ["histories", "schedules"], "interleavings of seeds, configurations and reuse of propagators",
    "Hidden state in propagators, caches or generators shows only over histories of calls.",
    [D + "Propagator.cxx", D + "math/RandomGenerator.cxx"], [("Propagator::Propagate", D + "Propagator.cxx")])
add("P04", "Propagation utilities are mutually consistent",
    "For every set of cross sections the column depth, elapsed time, decay and interaction integrals between two energies are non-negative, additive, and inverted by their upper-limit searches; energy loss randomisation keeps the energy between the limits; tabulated and directly integrated versions agree within interpolation precision. The propagation utility hands every question to its calculators unchanged and turns the direction by exactly the sampled deflection angles; asking a process for a target the medium does not contain is an error.",
    ["inputs", "configurations"], "particles, media, cuts, energies, random numbers, interpolation on and off",
    "Tests fix a few energies per utility and do not relate the utilities.",
    [D + "propagation_utility/"], [("Displacement, Time, Decay, Interaction, ContRand", D + "propagation_utility/*.cxx")])
add("P05", "A propagation configuration means what it says",
    "A propagator built from a configuration file uses exactly the media, geometries, cuts, processes and options written there, with global settings applied to sectors that do not override them; wrong or incomplete configurations are rejected with an error and never crash.",
    ["configurations"], "generated valid configurations and single-field corruptions of them",
    "Only one configuration is loaded by the tests.",
    [D + "Propagator.cxx"], [("Propagator json constructor", D + "Propagator.cxx")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as o:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        o.write(json.dumps(p) + "\n")
