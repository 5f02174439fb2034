#!/usr/bin/env python3
"""Writes DESIGN.md from lib/design_head.md, properties.jsonl, lib/props.py, lib/design_tail.md, known_findings.txt and the seeds' meta.json."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path.insert(0, here)
import props
# property -> (oracle, bounds and tolerance, what it reaches that the tests cannot)
O = {
"G01": ("own intersection of ray and solid in long double (`geo.h`), evaluated for perturbed positions and directions too; judged only if all agree on the number of crossings", "sizes 1e-2..1e6, distances to 1e9; tolerance from the spread of the perturbed answers", "edge/corner hits, holes crossed through caps, starting on borders"),
"G02": ("membership of the point a little ahead and behind in the own solid; exclusivity and completeness of the three predicates", "same worlds as G01; points nearer to the border than the geometry precision are judged on exclusivity only", "border points x moving in or out"),
"G03": ("the description itself: behaviour is compared with the object built from the same numbers; corrupted ones must throw", "json and constructor; all fields corrupted one at a time", "fractional radii, wrong types, copies that die"),
"D01": ("adaptive quadrature in long double of Evaluate along the step; the inverse is integrated back", "steps 1e-3..1e9, perpendicular and infinite included; only well conditioned columns", "inverse without solution, perpendicular directions"),
"D02": ("bit for bit comparison of original and copy after the original died (ASan watches)", "all kinds of profile x both axes", "lifetime"),
"V01": ("algebra in long double", "components over 1e-150..1e150", "mixed representations, poles"),
"V02": ("angle by atan2 of cross and dot product in long double", "angles down to 1e-12 and pi-1e-12", "poles, backward"),
"M01": ("known roots of eleven families, sign on both sides", "values 1e-300..1e300", "plateaus, multiple roots, underflow of products"),
"M02": ("long double Horner evaluation, finite differences only where conditioned", "degree <= 10, 3..30 nodes", "save/load, copies after death, shifts"),
"M03": ("long double erfc, inverted answer put back into the distribution", "windows to 37 sigma", "tails"),
"I01": ("antiderivatives", "integrands resolved by the method (bounded second derivative relative to the number of steps)", "wrong-signed and infinite limits, reversed"),
"I02": ("antiderivatives; share carried by the reported limit", "precision of the method", "shares 0/1, absolute shares, narrow intervals"),
"I03": ("bit for bit comparison with a fresh integrator", "histories up to 40 operations over 4 integrators", "history dependence, references into dead objects (ASan)"),
"T01": ("exact polynomials, rigorous error bounds for sines, node values", "2..60 nodes, orders 1..10", "queries at ends and outside, order above number of nodes"),
"T02": ("query by query against the original; loading must report failure or succeed and leave the table as it was", "truncation at every byte of small files, random damage, RLIMIT_FSIZE faults", "crash points while writing"),
"R01": ("replayed std::mt19937 and recorded sequences", "histories of 60 operations", "restore after interleaved operations"),
"S01": ("mass shell in long double, mirrored tables, one field changed at a time", "all built-in definitions", "registration conflicts"),
"E01": ("definitions recomputed; published Z/A and radiation lengths with tolerance", "all media, random mixtures to 8 elements", "mixtures nobody listed"),
"C01": ("definition min/max", "energies 1e-3..1e15", "ties, infinities"),
"K01": ("boost in long double; Kolmogorov-Smirnov type statistics for isotropy and the Michel spectrum", "gamma to 1e8; fixed seeds make statistics deterministic, thresholds at 5 sigma of many seeds", "threshold channels, random number 0 or 1-eps"),
"K02": ("cumulative sums of the ratios in long double", "tables of 1..8 channels, ratios over 12 decades", "equal ratios, copies after death"),
"K03": ("charges, lepton numbers by particle; published ratios", "exhaustive over built-in tables", "completeness of the mirror"),
"X01": ("finite, non-negative, ordered; shrunk to 1e-8 of either limit", "all parametrisations x particles x targets, energies to 1e14 MeV", "edges, heavy particles, thresholds"),
"X02": ("metamorphic: two configurations that differ in one respect", "relative 1e-9 or rounding noise", "pairs the tests never form"),
"X03": ("published formulas in long double (`ref.h`, `models.h`), with the same formula in double as measure of rounding noise", "all parametrisations, all tabulated nuclei", "a wrong constant for a single nucleus or a region of the kinematics"),
"X04": ("adaptive Gauss quadrature in ln v and ln(1-v) of the code's own differential cross section", "relative 1e-3 in the well-conditioned domain, statistics elsewhere (`totals`)", "two cuts: additivity"),
"X05": ("the sampled loss is integrated back by the same quadrature", "as X04", "shares near 0 and 1, beyond the total"),
"X06": ("set of fingerprints of ~1000 configurations, all pairs; the same in another process", "collisions by chance have probability below 1e-13", "two options whose contributions cancel"),
"L01": ("published Highland width in long double; angle between directions", "grammage 1e-10..1e10", "offsets beyond a right angle, poles"),
"L02": ("kinematics, distribution functions inverted, published widths", "all models x energies x losses to the limits", "single regions of piecewise formulas, single nuclei"),
"L03": ("Moliere's projected distribution from its defining integrals in long double, B by bisection; Highland's integral by own quadrature; bit for bit comparison of clones and fresh models", "angles up to 400 widths; quantiles to 2e-4 plus 0.5 % of the tail (tables 5e-3 plus 2 %); integrated widths 1e-3 (tables 1.5 to 4 %)", "regions of the piecewise series, tails, few scatterings, charges, lifetimes of copies"),
"Y01": ("energy and momentum balances in long double; asymmetries integrated back; Kolmogorov-Smirnov for photon angles; serialised global generator before and after", "split 2e-2 (5e-2 muon pairs; 0.1 above 1e12 MeV or for masses above 2 GeV)", "random numbers near 0/1, edges of the allowed range"),
"Y02": ("balances in long double; the share integrated back over the differential cross section or its antiderivative; serialised global generator", "tables of 60x60 nodes: 0.05 (0.1 muon pairs), energies above twice the threshold; annihilation 2e-5", "small shares at high energies, random numbers near 0/1, unknown targets"),
"W01": ("integral of the rate between the energies in long double", "relative precision of the integrator", "unreachable values, resonances"),
"Z01": ("ThreadSanitizer plus comparison with single-threaded answers", "8 threads, objects without interpolation tables; thousands of questions while another thread is inside the same object", "interleavings"),
"P01": ("every step re-integrated over the matter on the way with an own world model; interactions and decays counted against the integrated rates (5 sigma)", "one to five bodies, energies 1e2..1e9 MeV, tables of 60..300 nodes", "borders, scattering at borders, sectors left and re-entered, limits reached in the same step"),
"P02": ("recomputation from the raw points of the track", "the tracks of P01 plus random bodies", "queries within steps, at losses, on borders, misses"),
"P03": ("bit for bit comparison", "reused, copied, rebuilt propagators, other process", "hidden state"),
"P04": ("own quadrature over rates recomputed from the cross sections", "table margins as in section 4", "near limits and rest mass"),
"P05": ("sectors built by hand from the same choices: tracks from the same seeds bit for bit", "files and json objects; one entry spoilt at a time", "combination of global and overridden settings"),
}
seeds = []
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    try: seeds.append((os.path.basename(d), json.load(open(os.path.join(d, "meta.json")))))
    except Exception: pass
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "", "## 2. The properties", ""]
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); i = p["id"]; q = props.PROPS.get(i)
    out.append("### %s %s" % (i, p["title"]))
    if not q:
        out += ["Not claimed: " + props.NA.get(i, "no check"), ""]; continue
    o = O.get(i, ("see the harness", "see the harness", p["why_tests_cant"]))
    out.append("* **Decided by** `harness/%s.cxx` (%s build), workload: %s." % (q["exe"], {"asan": "ASan+UBSan", "tsan": "ThreadSanitizer", "full": "ASan+UBSan, with the stand-in"}[q["kind"]], q["rule"]))
    out.append("* **Oracle**: %s." % o[0])
    out.append("* **Bounds**: %s." % o[1])
    out.append("* **Reaches**: %s. %s" % (o[2], p["why_tests_cant"]))
    if q.get("require"): out.append("* **Must be observed** in every run: " + ", ".join("%s >= %d" % kv for kv in q["require"].items()) + ".")
    c = [s for s, m in seeds if m.get("property") == i]
    if c: out.append("* **Planted bugs caught**: " + ", ".join("`%s`" % s for s in c) + ".")
    out.append("")
out += ["## 3. Findings", "", "Defects of the pinned tree, found by these checks (`known_findings.txt`). `fixed` ones are repaired by `fix:` commits in /repo, `KNOWN` ones are recorded.", ""]
for l in open(os.path.join(root, "known_findings.txt")):
    if l.startswith(("fixed:", "KNOWN")): out.append("* " + l.strip())
out += ["", open(os.path.join(here, "design_tail.md")).read().rstrip(), "", "## 6. Planted bugs", "",
        "Each lives in seeded/<id> and was confirmed with seedtest.sh: builds, all 126 stable tests pass, its demo fails, and the check named catches it.", "",
        "| seed | check | needs | breaks |", "|---|---|---|---|"]
for s, m in seeds: out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
