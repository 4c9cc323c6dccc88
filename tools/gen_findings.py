"""Writes known_findings.jsonl. Only entries with status "open" suppress anything, there is none."""
import json, os
F = [
 ("C01", "cf5a377", "RK instances shared the Butcher table arrays of their class: writing to the Q, weights or nodes of one object changed all later objects"),
 ("C01", "e5204fc", "embedded weights of a padded RK method were not padded: genCoeffs(embedded=True) and solveDahlquist(useEmbeddedWeights=True) failed"),
 ("C01", "ba0b96b", "genCoeffs and genQCoeffs handed out internal arrays of the generator"),
 ("C01", "16985e9", "h coefficients of Collocation on an interval not ending at one extrapolated to t=1"),
 ("C01", "878254d", "weights and Q of points not given in increasing order were permuted (LagrangeApproximation)"),
 ("C02", "d24948e", "QDeltaGenerator.genCoeffs(single k) handed out the cached matrix: caller writes changed later answers"),
 ("C02", "65ad6c7", "BEPAR, TRAPAR and SOE coefficients ignored a left bound that is not zero"),
 ("C02", "c22a2aa", "time-stepping approximations truncated deltas of integer nodes"),
 ("C06", "a76b334", "genQDeltaCoeffs extended the list of types of its caller in place"),
 ("C06", "fba028f", "generators and approximations kept references to arrays of their caller"),
 ("C07", "cbc51e0", "MIN-SR-S coefficients changed the warning filters of the process"),
 ("C05", "c6ad2ad", "a refused registration left the class partly registered"),
 ("C05", "970fdbf", "getClasses failed (dictionary changed size) when another thread registered a class"),
 ("C08", "5bb2170", "Timer used the civil clock, which can be adjusted during a measure"),
 ("C09", "0624f60", "classes were missing from the registries after an import that failed once and was tried again"),
 ("C09", "7e739fd", "after an import that failed once, submodules were not attributes of the package imported by the retry"),
 ("C09", "418b021", "an I/O error when listing the directory of a sub-package was ignored: the import succeeded with empty registries"),
 ("C12", "0f44192", "overflow of the barycentric weights to infinity without a trap was ignored in AUTO mode"),
 ("C12", "0a6da22", "interpolation matrix was NaN when weights were close to the floating-point limits"),
 ("C12", "de799ac", "CHEBFUN weights were NaN for a single point"),
 ("C12", "f4e8524", "interpolation on a point whose weight underflows to zero was NaN (equispaced grids of about 1100 points and more)"),
 ("C12", "dc59328", "CHEBFUN weights overflowed on large grids of very large or very small extent"),
 ("C12", "6f539d4", "weights scaled by the one closest to zero (scaleRef=ZERO) overflowed on large grids, every matrix was NaN"),
 ("C15", "7c59ddb", "an interrupt while a Q-generator was registered became a TypeError about its constructor"),
 ("C15", "4165516", "an interrupt while coefficient tables were read became a ValueError"),
 ("C16", "b82d2e6", "a process forked while another thread registered a class could never register or list classes"),
 ("C01", "7490274", "rightIsNode of Collocation on an interval not ending at one compared the last node with one"),
 ("C01", "f29ef72", "nodes of Collocation methods on tiny intervals or far from zero were moved onto the bounds of the interval"),
 ("C13", "82a6b34", "sparse interpolation reused rows of other points on fine grids"),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
with open(out, "w") as f:
    for p, c, w in F:
        f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"}) + "\n")
