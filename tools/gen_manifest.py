#!/usr/bin/env python3
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TB = "Trusted: Verus/Z3/vstd, the syntactic translator (DESIGN.md section 3), the prelude's assumed specifications (listed in the evidence). The harness runs beside the proof: it replays failures and stands in where the proof does not apply to changed code."
PROOF = "Verus: contracts on the real functions, extracted from /repo on every run; failing inputs searched by a harness"
PART = "bounded stand-in for functions not yet under contract (harness against the real code) beside Verus contracts on the rest"
L = {
 "C01": ("proof", PROOF, "Every function is under contract for all inputs. " + TB),
 "C02": ("proof", PROOF, "Every function is under contract for all inputs. " + TB),
 "C03": ("proof", PROOF, "Every function is under contract for all inputs. " + TB),
 "C04": ("proof", PROOF, "Every function is under contract for all inputs. " + TB),
}
READ = "Readers, decoders, the pairing of the two files, opening them by name and the Display functions are under contract for every byte stream. Byte streams, files, byteorder, encodings and the one regular expression are assumed specifications; the text that Display writes is not specified. "
for k in ("C12", "C13", "C14", "C16"): L[k] = ("proof", PROOF, READ + TB)
L["C15"] = ("proof", PROOF, "Under contract for every box and record; rests on seven facts of IEEE arithmetic (monotone rounding) that Verus assumes and Rocq proves from Flocq's definition of binary64 (contracts/ieee/Ieee.v); trusted: that Rust's f64 operators are IEEE round-to-nearest and `as u32` truncates and saturates. " + TB)
L["C05"] = ("proof", PROOF, "Every function of clip::topology is under contract for every topology whose pointers point into it (sizes below 2^58 points per ring). Pointers are modelled as positions in the slices they point into; std's HashMap is an assumed specification. " + TB)
L["C06"] = ("proof", PROOF, "Every function of topology::build is under contract for every sequence of regions. Pointers are modelled as positions in the slices they point into; std's HashMap is an assumed specification. " + TB)
NORM = "Every function of normalize is under contract, for every topology whose references are right and whose rings are closed walks of non-zero area (fewer than 2^59 segments per region); the two deliberate panics of join_adjacent_rings for regions that touch themselves are allowed. What raw pointers point to and std's sort and BTreeMap are assumed specifications. "
L["C07"] = ("proof", PROOF, "Under contract in topology::build, clip::topology and normalize, for every topology in which no path is used more than twice (otherwise the code panics). Pointers are modelled as positions in the slices they point into. " + TB)
L["C10"] = ("proof", PROOF, NORM + TB)
L["C11"] = ("proof", PROOF, NORM + "That the segments left out come in opposite pairs is proved from refs_ok for regions that have no edge on the same side twice (that is what not overlapping means for the clause about net areas). " + TB)
L["C17"] = ("proof", PROOF, NORM + "Proved from the contract of normalize for every topology that is planar in the sense of DESIGN.md section 6 (C17): each segment on one stored edge, no region passing a point twice or lying on the same side of a segment as another, closed parts of borders enclosing area; that maps of non-overlapping regions cut at their junctions satisfy this is planar geometry, not code. " + TB)
for k in ("C08", "C09"): L[k] = ("proof", PROOF, "Every function of simplify is under contract, for every edge of fewer than 2^60 points and every threshold: heap, linked list and history of removals. Pointers are modelled as positions in the slices they point into. " + TB)
for i in range(5, 18):
    L.setdefault("C%02d" % i, ("exploration", PART, "Bounded: exhaustive small scopes plus random cases; not proved. " + TB))
checks = []
for k, (level, tech, note) in sorted(L.items()):
    checks.append(dict(property=k, quick_cmd="python3 check.py " + k, thorough_cmd="VERIF_TIER=thorough python3 check.py " + k, technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[], notes="No hooks in /repo. See DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
