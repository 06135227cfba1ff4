"""Writes known_findings.json (committed; checks only read it)."""
import json
import os
import subprocess

FIXED = {   # subject of the fix commit -> properties and what failed
    "do not share zstd contexts between threads": (["C05", "C04"], "two threads storing or reading at once used one zstd context: crash, corrupted or mixed-up lists"),
    "detect damaged distribution blobs instead of decoding them": (["C05"], "a damaged blob (flipped bits, changed type byte or length) was decoded to different numbers without an error"),
    "honour sample_size_error in the critical-value lookup": (["C03", "C10"], "get_data_for_cv ignored sample_size_error, so a distribution cached for a near sample size was not found and was fetched again"),
    "look up and delete keys shared by several experiments": (["C03"], "two experiments storing the same criterion, parameters, size and Monte Carlo count made get_data and delete_data raise MultipleResultsFound"),
    "store records with one upsert statement": (["C04"], "two clients storing the same new key at once: one failed with a UNIQUE constraint error"),
    "let several clients initialise a fresh database at once": (["C07"], "two clients initialising a fresh database at once: one failed with 'table already exists'"),
    "load a single criterion into the local storage": (["C08"], "CriticalValueLoader.load checked the wrong storage and reported success without storing anything locally"),
    "do not report distributions as cached when storing them failed": (["C08"], "load_bulk counted distributions as newly cached although inserting them into the local store had failed"),
    "report locally cached criteria when there is no remote storage": (["C08", "C10"], "without a remote storage, load_bulk reported criteria that are cached locally as not found"),
    "count repeated values in critical values": (["C14"], "critical values were taken from the distinct values of the distribution, so ties moved the rejection area"),
    "roll back when a commit fails": (["C06", "C02", "C04"], "a commit that failed (lock conflict, disk error) left the transaction open: the pooled connection kept its lock and later operations failed or saw uncommitted data"),
    "discard connections whose schema creation failed": (["C07"], "after a failed schema creation the pooled connection kept outdated cached pages: once another client had created the schema, every operation on it failed with 'file is not a database'"),
    "generate samples with the hypothesis parameters of the statistic": (["C12", "C13"], "the beta, gamma and log-normal generators ignored the parameter names used by the hypotheses (alpha, beta, scale), so null distributions were simulated from the default parameters"),
    "truncate the normal distribution at the given bounds": (["C15"], "truncation bounds were passed to scipy unstandardised: with a mean other than 0 or a variance other than 1 the values were cut elsewhere"),
    "find stored distributions whatever their Monte Carlo count": (["C14"], "the storage-backed resolver asked for Monte Carlo count 0 and never found a stored distribution"),
    "do not sort the caller's sample in place": (["C11"], "fourteen statistics sorted the caller's sample in place, and the graph independence number failed on arrays"),
    "initialise the Ryan-Joiner statistic completely": (["C12", "C13"], "RyanJoinerNormalityGofStatistic skipped its base initialiser, so its hypothesis (and any test with it) raised AttributeError"),
    "let the Brys-Hubert-Struyf statistic terminate": (["C11", "C12"], "the weighted median of BHS looked at stale work-array entries of earlier iterations and could loop for ever"),
    "make the Weibull statistics that always raised computable": (["C12", "C13"], "Anderson-Darling, Laplace-transform 2 and 3 for Weibull always raised, Cabana-Quiroz raised on lists"),
    "state the location and scale of Student hypotheses": (["C13", "C14"], "Student statistics with a location or scale simulated their null distribution, and stored it, without them"),
    "list available criteria in a stable order": (["C16"], "get_available_criteria listed the criteria in the iteration order of a set of classes, different from process to process"),
    "list available criteria whatever was imported before": (["C16"], "get_available_criteria listed no criteria in a process that had not imported the statistics"),
    "keep Šidák-adjusted tiny p-values from vanishing": (["C17"], "the Sidak and Sidak-Holm adjustments of p-values below 1e-16 were 0, below the raw value"),
}
KNOWN = [{
    "property": "C17", "status": "known", "sig": "holm-is-step-up",
    "what": "Holm.adjust enforces monotonicity from the largest p-value down, which is Hochberg's step-up procedure: for p-values that are not independent or positively "
            "dependent its family-wise error rate exceeds the level, e.g. 2 true hypotheses, both p-values in (a/2, a] with probability a/2 and exactly one below a/2 with "
            "probability a: error rate 1.5 a. Input: Holm.adjust([0.03, 0.04]) gives [0.04, 0.04], Holm's method gives [0.06, 0.06]. Not repaired: the existing test "
            "test_holm_adjust demands the step-up values",
    "line": "known: property=C17 Holm.adjust computes Hochberg's step-up adjustment (suppressed only when every family's rejections equal the step-up procedure's and the p-values are "
            "neither independent nor positively dependent)",
}]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    out = []
    for ln in log.splitlines():
        h, s = ln.split(" ", 1)
        if s.startswith("fix: "):
            props, what = FIXED[s[5:]]
            for p in props:
                out.append({"property": p, "status": "fixed", "commit": h, "what": what,
                            "line": f"fixed: property={p} {h} {what}"})
    out.sort(key=lambda d: d["property"])
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
    with open(path, "w") as f:
        json.dump({"findings": KNOWN + out}, f, indent=1)
        f.write("\n")


main()
