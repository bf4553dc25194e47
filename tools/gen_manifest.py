"""Write MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the package source (value-numbering polynomial domain) over every enumerated configuration"
BUD = "Identities are tested on 1500 random interpretations of the extracted terms with running rounding-error bounds: a reported violation is certain beyond rounding; violations confined to a set of measure below 0.2 % are missed. Up to 3 snow layers unrolled. Quick: the 49 configurations that reach water stores, thorough: all 127 and three seeds."
T = {
 "P01": ("configuration-use census: option reads on every interpreted path joined with the schema (declared, default or required, read, overwritten), plus value-number comparison of runs that differ in one two-valued option; " + AI, "All schema options (quick: 136 model, 26 forcing, 25 output configurations). An option counts as effective when some analysed path reads it (two-valued options: when it changes statements or values); an option ignored at only one of several uses within one module combination is not seen. Two known findings."),
 "P13": ("race analysis of numba parallel loops on the syntax tree (callees inlined; index identity of written/read elements, loop-carried scalars) and taint tracing of nondeterministic sources (random, clock, process, directory order, set order, unseeded library routines)", "All prange loops and functions of the package. Trusts numba's own parallelisation of array expressions and third-party libraries beyond the listed stochastic routines."),
 "P02": ("dispatch exhaustiveness analysis: every accepted choice is interpreted through initialization, forcing input, one generic step and output; reachable not-implemented errors, fall-through dispatches, choice-private failures and value-number equality of sibling choices are reported; " + AI, "136 model, 26 forcing and 25 (quick) output configurations. Choices inside free-form strings (gauge, frequency) are outside; unsupported pairs are found only when they fail, ignore their own required parameter or coincide with another choice."),
 "P03": ("field-registration typestate analysis; " + AI, "Decides for all 127 enumerated configurations (every enumerated option one at a time on two bases, module on/off products, selected pairs). Trusts the analysis' model of numpy indexing and of the StateVariableManager API."),
 "P04": ("non-interference analysis: post-step value numbers of every field tested for dependence on the previous content of non-retained fields by random interpretation of the normal forms (Gulwani/Necula) with running rounding bounds; " + AI, "All fields of 77 (quick) / all (thorough) configurations; a dependence is only reported when it is certain beyond rounding in both of two independent interpretations; loop-carried values of iterative solvers are unknown inputs."),
 "P05": ("ROI-confinement dataflow (content outside the ROI tracked per field); " + AI, "Every field store on every analysed path; stores whose index the domain cannot express are listed as undecided in the evidence and never alarmed."),
 "P06": ("mass-balance identity of one generic step, decided by identity testing of the value numbers the abstract interpretation assigns to all pools and fluxes; " + AI, BUD),
 "P07": ("mass-balance identities of precipitation partition and canopy store, decided by identity testing of value numbers; " + AI, BUD),
 "P08": ("mass-balance identities of root zone, evaporation layer and sealed surface, decided by identity testing of value numbers; " + AI, BUD),
 "P09": ("sign analysis of stores and one-directional fluxes on the value numbers of one generic step; " + AI, BUD),
 "P10": ("dimension inference over field, constant, option and docstring units; " + AI, "Every addition, comparison, limiting, assignment and documented argument. Products with empirical numeric literals make a unit soft (not compared)."),
 "P15": ("frame (side-effect) and alias analysis of the output managers, raster writer and live view: every store, rebinding and mutating call they perform on a reachable path is checked against the set of objects that existed before; " + AI, "39 (quick) output histories covering every format, layout, aggregation and the live view; libraries are assumed not to modify arrays handed to them."),
 "P16": ("typestate analysis of run()/run_single() call histories and event-order analysis of one generic step; " + AI, "Histories of up to four calls over one to three dates; event order with path conditions for every configuration."),
 "P19": ("typestate/history analysis: the output managers are interpreted abstractly over six-step histories with symbolic field values; stored values must be the exact linear combination of the interval's steps, file contents the exact date sequence", "59 (quick) histories over every format, layout, append mode, aggregation and several write patterns; dates abstracted to positions. Frequency strings are turned into dates by pandas and are not analysed (write dates are enumerated instead)."),
 "P20": ("named-axis (dimension) type inference of writer and converter: every array axis carries the quantity its length stands for; coordinates compared as normal forms; " + AI, "Writer/converter pairs for memory, undecoded and decoded file datasets, 2- and 3-dimensional float and integer variables; any number of rows and columns."),
 "P21": ("pixel-set provenance analysis (masks as symbolic sets); " + AI, "Every combination and store of per-pixel arrays; spatial reductions outside the explicitly spatial modules are reported."),
}
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(f"{V}/checks/{i.lower()}.py") and i in T:
            checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i}", thorough_cmd=f"/opt/venv/bin/python check.py {i} --thorough",
                               technique=T[i][0], level="other", level_note=T[i][1]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import ruamel.yaml'", checks=checks, not_applicable=na,
                   notes="Static analysis only; the checks parse /repo's current source and never import or run it."), open(V + "/MANIFEST.json", "w"), indent=1)
NA = {}
if __name__ == "__main__":
    main()
