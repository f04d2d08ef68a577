"""Writes known_findings.json: open findings (hand-listed) and fixed defects (python -m mc.known)."""

import json
import subprocess
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent

# property, section, case or key, what
FINDINGS = [
    {
        "property": "M06",
        "section": "walk",
        "key": "walk-steps-from-t0",
        "what": "sample_damped_random_walk measures every step from t0 instead of from the previous time (curr_t is never "
        "updated); not repaired because the repair changes the seeded values test_sample_damped_random_walk bounds",
    },
    {
        "property": "M06",
        "section": "walk",
        "key": "order-checked-against-t0",
        "what": "sample_damped_random_walk accepts times that do not increase as long as they are after t0 (curr_t is never "
        "updated), e.g. [1, 1] or [0, 2, 1] with t0 = 0",
    },
    {
        "property": "M06",
        "section": "params",
        "key": "wavelength-scaling",
        "what": "AGN.compute_structure_function_at_inf and compute_tau scale linearly with wavelength times a constant instead of "
        "by the power law of the cited paper, so that the values at 4000 A are not the values for 4000 A; "
        "test_compute_structure_function_at_inf and test_compute_tau pin the present numbers",
    },
]

# first words of the fix commit's subject -> property
FIXED = [
    ("fix: tell GraphStates with scalar", "G01"),
    ("fix: sample tables with a single column", "G06"),
    ("fix: compare GraphStates whose vector", "G01"),
    ("fix: map the phases of blueshifted", "S03"),
    ("fix: search the whole sky", "O01"),
    ("fix: raise KeyError for a missing short name", "G02"),
    ("fix: leave a GraphState unchanged when set()", "G01"),
    ("fix: copy array values of single sample", "G01"),
    ("fix: let GraphState.set() expand None", "G01"),
    ("fix: compare GraphStates with non-numeric", "G01"),
    ("fix: keep the fixed parameter sets in extract", "G01"),
    ("fix: expand zero-dimensional arrays", "G01"),
    ("fix: write single sample GraphStates as one", "G02"),
    ("fix: keep bare values when GraphState.from_list", "G02"),
    ("fix: read empty strings back from GraphState", "G02"),
    ("fix: keep array values of single samples", "G02"),
    ("fix: renumber a graph's nodes", "G04"),
    ("fix: include parameters set from their own", "G07"),
    ("fix: include the objects of a MultiObjectModel", "G07"),
    ("fix: sample the objects of nested", "G07"),
    ("fix: let MultiObjectModel.set_apply_redshift", "M03"),
    ("fix: look up the selected object by name", "M03"),
    ("fix: keep every object of a RandomMultiObjectModel", "M03"),
    ("fix: pass the keyword arguments on to compute_sed", "M01"),
    ("fix: accept integer weights in GivenValueSampler", "G06"),
    ("fix: map draws below the first CDF sample", "G06"),
    ("fix: accept lists and integer densities", "G06"),
    ("fix: use the given random number generator in Dist", "G05"),
    ("fix: apply each sample's parameters to its own", "G05"),
    ("fix: reject calls of anything but a named", "N01"),
    ("fix: compute max and min of BasicMathNode", "N01"),
    ("fix: store bare values for single samples with a radius", "D02"),
    ("fix: look up observations by row position", "O01"),
    ("fix: accept scalar time bounds", "O01"),
    ("fix: check every result in ObsTable.is_observed", "O01"),
    ("fix: update the list of filters", "O01"),
    ("fix: reject columns of the wrong length for empty", "O02"),
    ("fix: do not write the row index", "O03"),
    ("fix: keep existing times of ZTF", "O03"),
    ("fix: keep the survey values stored", "O03"),
    ("fix: derive ZTF zero points", "O04"),
    ("fix: read the given file in RomanObsTable", "O04"),
    ("fix: leave the caller's table unchanged in RomanObsTable", "O04"),
    ("fix: allow oversampling an OpSim", "O05"),
    ("fix: apply no time window to samples without", "S01"),
    ("fix: simulate objects without any observations", "S01"),
    ("fix: use the given random number generator for the effects", "S02"),
    ("fix: accept integer phases", "S03"),
    ("fix: integrate bandfluxes with the actual step", "P01"),
    ("fix: average duplicate wavelengths", "P01"),
    ("fix: raise the ValueError for passbands without", "P01"),
    ("fix: accept transmission tables of integers", "P01"),
    ("fix: accept light curves of integers in LightcurveData", "M04"),
    ("fix: convert only given baselines", "M04"),
    ("fix: place the SED basis of light curve templates", "M04"),
    ("fix: accept a LightcurveData instance", "M04"),
    ("fix: accept additional keyword arguments in StaticSEDModel", "M05"),
    ("fix: compare the separation with GaussianGalaxy", "M05"),
    ("fix: evaluate SplineModel at times and wavelengths in any order", "M05"),
    ("fix: use the given random number generator for the random walk", "M06"),
    ("fix: map merged wavelengths", "P02"),
    ("fix: reject ambiguous filter names", "P02"),
    ("fix: oversample OpSims whose row labels", "O05"),
    ("fix: accept single points in DetectorFootprint", "D01"),
    ("fix: offset pointings with integer coordinates", "D02"),
    ("fix: augment light curves with observations of undefined", "R01"),
    ("fix: subtract each row's own t0", "R01"),
    ("fix: compute relative times also if an object's t0", "R01"),
    ("fix: drop empty light curves also after augmenting", "R01"),
    ("fix: scale grid files of integer values", "M07"),
    ("fix: evaluate sncosmo models at times and wavelengths in any", "M07"),
    ("fix: a rejected SncosmoWrapperModel.set()", "M07"),
    ("fix: use the sampled Rv in the host extinction", "M07"),
    ("fix: interpolate the BayeSN template", "M07"),
    ("fix: read back the .dat files", "I01"),
    ("fix: read grid data from FITS files", "I01"),
    ("fix: keep the metadata of LCLIB events apart", "I01"),
    ("fix: download an existing file again", "C01"),
    ("fix: accept units and force_download for the Roman", "C01"),
    ("fix: accept integer cosmological parameters", "A01"),
    ("fix: draw the position angles of SNCoordGivenPhysicalSep", "A01"),
    ("fix: do not truncate zeropoints", "A01"),
    ("fix: do not overflow on integer wavelengths", "A01"),
    ("fix: draw single samples from conditional flows", "A02"),
    ("fix: keep the conditions and conversion function", "A02"),
    ("fix: sample bilby priors with constraints", "A02"),
    ("fix: do not download the SFD dust maps again", "A02"),
    ("fix: extrapolate redback models", "M08"),
    ("fix: keep the existing table if", "O03"),
    ("fix: plot the points of light curves without", "V01"),
    ("fix: plot light curves with more filters", "V01"),
    ("fix: plot band flux light curves of different", "V01"),
    ("fix: show the whole footprint", "V01"),
    ("fix: draw all random numbers of the SN Ia", "X01"),
    ("fix: accept a filter named both", "P02"),
    ("fix: order the filters of light-curve templates", "G05"),
    ("fix: follow overwritten positions", "O01"),
]


def write():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
    commits = [line.split(" ", 1) for line in log.splitlines()]
    fixed = []
    used = set()
    for start, pid in FIXED:
        hits = [(h, s) for h, s in commits if s.startswith(start)]
        assert len(hits) == 1, (start, hits)
        used.add(hits[0][0])
        fixed.append(f"fixed: property={pid} {hits[0][0]} {hits[0][1][5:]}")
    for h, s in commits:
        if s.startswith("fix:") and h not in used:
            print("unlisted fix:", h, s)
    (VERIF / "known_findings.json").write_text(json.dumps({"findings": FINDINGS, "fixed": fixed}, indent=1) + "\n")


if __name__ == "__main__":
    write()
