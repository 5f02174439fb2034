PROPS = {}


def P(id, exe, rule, kind="asan", **k):
    PROPS[id] = dict(exe=exe, rule=rule, kind=kind, **k)


P("G01", "h_geometry", "random bodies x positions x directions (aimed, axis-parallel, lattice, border); non-trivial: the ray is not grazing, so that the exact expected pair is judged",
  require={"strong sphere-hollow pieces=2 crossings-ahead=4 ahead": 50, "strong cylinder-hollow pieces=2 crossings-ahead=3 inside": 20, "strong box pieces=1 crossings-ahead=2 ahead": 500})
P("G02", "h_geometry", "random bodies x positions x directions; non-trivial: membership is decided with a margin",
  require={"border moving in": 500, "border moving out": 500})
P("G03", "h_geometry", "random descriptions, corrupted descriptions, copies with one changed parameter",
  require={"changed hierarchy": 50})
P("D01", "h_density", "random profiles x axes x start points x directions (perpendicular and nearly so included); non-trivial: the column is well conditioned so that it is judged against the line integral",
  require={"column judged cubic-spline perpendicular": 50, "infinite distances asked for": 500, "inverse judged polynomial-radial": 500, "direction of change judged": 500})
P("D02", "h_density", "random profiles copied, cloned, assigned and configured; answers compared bit for bit after the originals died",
  require={"changed axis": 100, "changed kind of axis": 100})
P("V01", "h_math", "random, axis-parallel, lattice and widely scaled vectors in both representations; non-trivial: non-zero operands")
P("V02", "h_math", "random directions (poles included) deflected by random, tiny, backward and right angles", require={"near a pole, polar angle backward": 500, "near a pole, polar angle tiny": 500})
P("M01", "h_math", "eleven families of functions with known roots (multiple roots, plateaus, infinite slopes, several roots) on random intervals; non-trivial: the ends bracket a root",
  require={"newton plateau": 100, "newton signed root": 100, "not bracketed": 100})
P("M02", "h_math", "random polynomials and splines against an independent long-double evaluation", require={"saved binary": 100, "saved text": 100})
P("M03", "h_math", "random distributions, truncation windows (tails included) and uniform numbers; cumulative probability from long-double error functions")
P("I01", "h_integral", "nine families of integrands with known antiderivatives x five methods x limits (reversed, infinite, wrong-signed, equal); non-trivial: the integral is resolved, so that the requested precision is demanded",
  require={"smooth": 3000, "hard: fallback used": 3})
P("I02", "h_integral", "positive (and negated) integrands x substitution/log methods x shares 0..1, above one, absolute; the share carried by the reported limit is computed from the antiderivative",
  require={"method 4 reversed absolute": 50, "method 3 power+ infinite reversed": 20})
P("I03", "h_integral", "random histories of integrate / invert / reconfigure / copy / assign / swap / destroy over a pool of integrators with kinked, singular, NaN, zero and noisy integrands; every answer is compared bit for bit with a fresh integrator", require={"upper limits compared": 300, "settings changed": 500})
P("T01", "h_interpolant", "random tables over (linear/log axis) x (plain/log values) x order x (polynomial/rational) in one and two dimensions, from functions and from given nodes, with polynomials (exact), sines (rigorous error bound) and fractions; queries at nodes, between, at the ends and outside; inverse searches",
  require={"queries at a node": 5000, "inverse 2d: rows on demand": 500, "inverse of log values": 2000, "2d asymmetric": 500})
P("T02", "h_interpolant", "random sequences of copy, assignment, swap, text and binary save/load over random tables of five kinds, judged query by query against the original; truncated, damaged, nested, missing files; writes cut off by a file size limit",
  require={"saved binary": 1000, "saved text": 1000, "short writes": 300, "binary nested rows": 20, "text header": 200})
P("R01", "h_basics", "random seeds (extremes included) x histories of draws, saves, restores, custom sources", require={"pairs of different seeds": 500}, qscale=.4)
P("S01", "h_basics", "all built-in particles, random definitions with every single field changed, random momenta, energies and states", require={"found by type": 20, "mirrored": 50, "conflicts refused": 5000})
P("E01", "h_basics", "all built-in media in random letter cases, random mixtures of built-in and made-up elements, each parameter varied; constants recomputed in long double")
P("C01", "h_basics", "random settings, energies and kinematic limits (ties and infinities included), invalid settings, random and damaged configurations", require={"absolute cut decides": 1000, "relative cut decides": 1000, "kinematic limit decides": 1000}, qscale=4)
P("K01", "h_decay", "built-in and made-up channels (two-body, leptonic, many-body) x parents at rest to ultra-relativistic x directions x hostile random numbers; boosts and two-body momenta judged in long double; emission statistics in the rest frame",
  require={"lepton energies judged against the spectrum": 3000, "products": 100000, "at threshold": 500})
P("K02", "h_decay", "random tables (equal, tiny, unnormalised ratios) scanned with dense rows of numbers; copies, assignments, swaps; channels compared with ones of other products", require={"tables with equal ratios": 300, "product exchanged for one of equal mass": 100})
P("K03", "h_decay", "all built-in decay tables scanned with a dense row of numbers and compared with the published channels", require={"channels": 100, "ratios compared": 100})


def totals(r, tier):
    c = r["counters"]
    for k, n in sorted(c.items()):
        if k.startswith("judged over") and n >= 20:
            off = c.get("off by a percent: " + k[7:], 0)
            if off > .25 * n:
                r["viol"].append({"key": "totals:" + k[7:].replace(" ", "-"), "class": "totals", "index": -1, "case": "the integrated cross sections of this run",
                                  "msg": "%d of %d integrals %s are off by more than a percent" % (off, n, k[7:])})


P("X03", "h_xsec", "every parametrisation x particles (built-in and made-up) x targets (built-in and made-up, each tabulated nucleus) x energies x losses up to both edges; long-double evaluations of the published formulas, tolerance from the rounding noise of the same formula in double",
  post=totals, qscale=8, require={"Tsai Be": 20, "Tsai Li": 20, "density effect between": 300, "suppression strong": 50, "pair suppression strong": 20, "x very large": 300})
P("X01", "h_rates", "every parametrisation (plain and LPM-suppressed) x particles x targets x energies (from the threshold) x losses up to 1e-8 of either limit",
  require={"judged PetrukhinShestakov": 100, "judged PhotoPairKochMotz": 100, "suppressed PhotoPairTsai": 30}, qscale=4)
P("X02", "h_rates", "pairs of configurations that differ in one respect (antiparticle, spin partner, charge, number of atoms, isotope, exchanged products, shadowing, density under suppression), same energy and loss",
  require={"isotopes CompleteScreening": 20, "charges KelnerKokoulinPetrukhin": 50}, qscale=1)
P("X04", "h_rates", "every parametrisation x particles x targets x energies x two cuts; integrals of the code's own differential cross section by an independent adaptive Gauss quadrature in ln(v) and ln(1-v)", post=totals,
  require={"judged over PhotoPairTsai rate": 10, "judged over EpairKelnerKokoulinPetrukhin loss": 2})
P("X05", "h_rates", "shares 0, 1-1e-6 and random of the rate of every parametrisation; the sampled loss is integrated back; monotony and range", post=totals,
  require={"beyond the total: largest loss": 100}, qscale=4)
P("X06", "h_rates", "all pairs of about a thousand configurations (recomputed in the same and in another process), random single changes of particle, cut, suppression, medium and component",
  require={"configurations": 500, "compared with another process": 500}, qscale=2)
P("L01", "h_scatter", "Highland scattering of built-in and made-up particles in built-in media over steps of 1e-10 to 1e10 g/cm2 and directions (poles included); widths against the published formula in long double, offsets beyond a right angle included",
  require={"offsets beyond a right angle": 300}, qscale=4)
P("L02", "h_scatter", "all deflection models x muons and other particles x targets x energies x losses up to either limit x hostile random numbers; kinematics and published widths in long double, distribution functions inverted",
  require={"photonuclear transfers compared": 200, "ionisation angles resolved": 200, "widths compared BremsGinneken": 400, "widths compared EpairGinneken": 400, "widths compared PhotoGinneken": 400}, qscale=4)
P("L03", "f_scatter", "Moliere's model (with and without tables) and the Highland width integrated over the step, built-in and made-up particles (neutral and multiply charged included) x built-in and random media x steps and energies over 12 decades x random numbers up to 1e-7 of either end; models used before, cloned, and clones whose originals died; containers of scattering models with random deflections and factors",
  kind="full", require={"core": 300, "shoulder": 30, "tail": 80, "no deflection": 200, "originals died": 100, "deflections compared": 300, "unknown names": 30}, qscale=2)
P("Y01", "h_secondaries", "all buildable secondaries models and the calculator x projectiles x targets x losses over the allowed range x directions x hostile random numbers; balances in long double, asymmetries integrated back, angular distribution of Koch-Motz photons (Kolmogorov-Smirnov)",
  require={"splits compared ForElectronPositronEpairProduction": 100, "splits compared KelnerKokoulinPetrukhinEpairProduction": 100, "splits compared KelnerKokoulinPetrukhinMupairProduction": 100, "turned NaivCompton": 200, "turned NaivIonization": 100}, qscale=4)
P("Y02", "f_secondaries", "Heitler annihilation, photopair production (Tsai, Koch-Motz; three angular models), photon muon pairs and weak interactions with tables in two media (four in the thorough tier) x energies from the threshold to 1e10 MeV x directions x hostile random numbers; balances in long double, shares integrated back over the differential cross section or its antiderivative",
  kind="full", require={"momentum judged": 300, "sides judged": 500, "splits compared Tsai": 100, "splits compared PhotoMuPair": 100, "splits compared WeakCooperSarkarMertsch": 100})
P("W01", "h_utility", "positive rates (power laws, resonances, steps, straight lines, vanishing and unreachable ones, throwing ones) x energies x lower limits x accumulated values from 0 to beyond the whole; each answer is integrated back in long double",
  qscale=4)
P("Z01", "h_threads", "eight threads released together ask shared geometries, densities, media, definitions, parametrisations, scattering and secondaries models; ThreadSanitizer watches every access and every answer is compared with the single-threaded one",
  kind="tsan", require={"questions while another thread asked the same object": 5000})
P("P01", "f_track", "random worlds (one to five nested spheres, boxes and cylinders, two media, constant or exponential density) x particles x starts, directions, limits and seeds; every point of every track is judged against the matter crossed, and the interactions and decays seen against the integrated rates",
  kind="full", require={"ended by decay": 50, "ended by distance": 50, "ended by energy": 50, "ended by border": 10, "interactions": 5000, "steps judged": 5000, "deflections judged": 1000})
P("P02", "f_track", "tracks of the same worlds, asked for everything: losses (all, by type, by name, inside a body), columns, decay products, states by distance and energy, closest approach, entry, exit, hit and energy lost for sectors and random bodies, each against a recomputation from the raw points",
  kind="full", require={"states judged": 1000, "crossing": 100, "entering": 50, "leaving": 50, "missed": 300, "several crossings": 20, "states by energy": 500, "energies within a stochastic loss": 100, "unknown names": 50})
P("P03", "f_track", "the same propagation repeated straight away, after others, with a copied or new propagator, with sectors or tables built anew and in another process, compared bit for bit; other seeds compared as well",
  kind="full", require={"compared with another process": 80, "compared with rebuilt tables": 80, "after others": 150, "with a copy": 100, "with new sectors": 100, "other seeds": 100})
P("P04", "f_utility", "column, time, interaction, decay and variance integrals of random worlds over random energy intervals, with and without tables, against own quadrature; inverted answers integrated back; rates and samples recomputed; shares of randomised energies from the error function; calls to the propagation utility against its calculators",
  kind="full", require={"inverted: column": 500, "inverted: interaction": 300, "inverted: decay": 100, "judged variance": 300, "sampled losses": 800, "shares judged": 1000, "tables": 300, "direct integrals": 300, "calls": 100, "azimuths": 20, "unknown targets": 20})
P("P05", "f_config", "random configurations (global and overridden media, cuts, times, scattering, processes and their options, densities, bodies with hierarchies; names in random letter cases; text or file) against the same sectors built by hand: tracks from the same seeds compared bit for bit; every process and parametrization by its factory and in single-sector worlds against the same made by hand; configurations with one wrong, missing or ill-typed entry and damaged files must be refused",
  kind="full", require={"tracks": 400, "cuts overridden": 20, "processes overridden": 20, "scattering overridden": 10, "density given": 40, "from a file": 20, "spoilt: sectors are no list": 20, "file cut off": 10, "made mupair": 40, "made weak": 40, "made photoeffect": 20, "rare tracks": 400, "rare mupair": 10, "rare weak": 10, "losses by MuPair": 20})
NA = {}
