REGISTRY = {}
for _m, _ids in {"nlp": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12",
                 "colloc": "K01 K02 K03 K04 K05",
                 "adapt": "A01 A02 A03 A04 A05",
                 "drive": "A06 A07 S01 S02 S03 S04 S05",
                 "post": "P01 P02 P03 P04 P05 P06 P07 P08"}.items():
    for _i in _ids.split(): REGISTRY[_i] = _m
LEVEL_NOTE = {
    "nlp": "All real values within the stated ranges, for every mesh/feature configuration listed in the evidence (bounded sizes); exact arithmetic with a numeric tolerance; user functions uninterpreted; counterexamples replayed on the unpatched code.",
}
LEVEL_NOTE["colloc"] = "All real polynomial coefficients, points, times and widths within the stated ranges, for every scheme, degree list and method listed in the evidence; exact arithmetic with a numeric tolerance; counterexamples replayed on the unpatched code."
LEVEL_NOTE["adapt"] = "All real residuals, widths, slopes, times and tolerances within the stated ranges and segment/sample counts; every branch of the real refinement code explored with the solver deciding feasibility; counterexamples replayed on the unpatched code."
LEVEL_NOTE["drive"] = "All sequences of solver answers, residual errors and widths within the stated numbers of calls and iterations, the solver itself replaced by an arbitrary answer; every branch of the real driver explored; counterexamples replayed."
LEVEL_NOTE["post"] = "All solution vectors, widths, scale factors and dynamics values within the stated ranges for every listed mesh, grid and selection; exact arithmetic with a numeric tolerance; counterexamples replayed on the unpatched code."
