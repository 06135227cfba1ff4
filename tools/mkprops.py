"""Writes /verif/properties.jsonl (kept as code so the statements are easy to review)."""
import json, os
S = "src/pysatl_criterion/"
DS = S + "persistence/sqlalchemy/datastorage.py"
AD = S + "persistence/sqlalchemy/alchemy_decorator.py"
ORM = S + "persistence/sqlalchemy/models/limit_distribution_orm.py"
MOD = S + "persistence/models/limit_distribution.py"
LD = S + "hypothesis_testing/critical_values/loader/remote_loader.py"
RES = S + "hypothesis_testing/limit_distribution/base.py"
GOF = S + "hypothesis_testing/goodness_of_fit_test/goodness_of_fit_test.py"
CVC = S + "hypothesis_testing/critical_values/calculator/critical_value_calculator.py"
PVC = S + "hypothesis_testing/p_value/calculator/p_value_calculator.py"
CA = S + "hypothesis_testing/critical_values/critical_area/critical_areas.py"
GEN = S + "generator/generators.py"
CORE = S + "core/distributions"
STAT = S + "statistics/goodness_of_fit"
UG, US, UD = S + "utils/generator.py", S + "utils/statistic.py", S + "utils/distribution.py"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Acknowledged writes to the distribution store survive any crash",
 "Once an insert, a batch insert or a delete on the limit-distribution store has returned without an error, its effect is "
 "still there when the database file is reopened after the process was killed or the machine lost power at any later moment. "
 "A write that had not returned leaves, after reopening, either its complete effect or none; everything acknowledged earlier is untouched.",
 ["crash_points", "histories", "fault_sequences"],
 "every history of writes by one or several clients, and every point (between or inside file operations) at which the process or the power fails, any number of times in a row, with any subset and tearing of the file writes that were not yet synced being lost",
 "The tests use an in-memory database and never close or reopen it; no test kills anything.",
 [DS, ORM], [("one session per write, committed before the call returns", "AlchemyLimitDistributionStorage.insert_data / insert_bulk_data / delete_data")],
 ["insert_data", "insert_bulk_data", "delete_data", "get_data", "get_bulk_data", "database file after reopen"],
 [("limit_distributions table", "the durable records", DS)])

prop("C02", "A batch insert is all or nothing",
 "After a batch insert, either every record of the batch is in the store or the store is exactly as before: no crash, I/O error, full disk, "
 "lock conflict, bad record or interruption leaves part of a batch behind, and no concurrent reader or later reopening sees part of one. "
 "A batch insert that raised left nothing behind that is visible, unless the failure happened while the outcome of the commit itself was unknown, in which case the whole batch is there or none of it.",
 ["crash_points", "fault_sequences", "schedules", "inputs"],
 "every batch (empty to thousands of records, new and existing keys, repeated keys within a batch) and every point at which a crash, disk error, full disk, lock conflict, unencodable record or asynchronous exception strikes, and every interleaving with readers",
 "The tests insert two records into an in-memory database and nothing ever fails.",
 [DS, ORM], [("one transaction for the whole batch", "AlchemyLimitDistributionStorage.insert_bulk_data")],
 ["insert_bulk_data", "get_bulk_data", "get_data"], [("limit_distributions table", "the durable records", DS)])

prop("C03", "Store lookups answer from the current record set, whatever the history",
 "After any sequence of inserts, updates, batch inserts, deletes and reopenings, an exact lookup returns the latest values stored under exactly that criterion code, "
 "parameters, sample size and Monte Carlo count, or nothing if there is none; a batch lookup returns exactly one record for every requested code that has a record in the requested "
 "sample-size range and none for any other code, and a batch or critical-value lookup returns a record with the largest Monte Carlo count among those that match the code and the size range. "
 "Lookups never fail because several experiments hold a record for the same key, never change the store, and a delete removes every record of its key and nothing else.",
 ["histories", "inputs"],
 "every history of operations over any set of keys, including several experiments for one key, sizes at both ends of the allowed range, codes and parameters that resemble each other, closing and reopening",
 "Each test makes one or two inserts and one lookup; sequences, several experiments, size tolerance of the critical-value lookup and reopening are never exercised.",
 [DS, ORM, MOD], [("lookup filters, ordering and best-record choice", "get_data / get_bulk_data / get_data_for_cv"), ("merge as upsert by primary key", "insert_data / insert_bulk_data"), ("delete by key", "delete_data")],
 ["get_data", "get_bulk_data", "get_data_for_cv", "insert_data", "delete_data"], [("limit_distributions table", "the records", DS)])

prop("C04", "Concurrent use of the store is linearizable",
 "When several threads or processes use one distribution store at the same time, every completed operation appears to take effect at one instant between its call and its return: "
 "no acknowledged write is lost, no lookup returns values never stored under its key or values already replaced before it began, and two writers of the same key both succeed with one of the values left. "
 "Operations do not fail merely because another client works on the same key, and none waits forever: each one returns, or fails with a database error, within a bounded time.",
 ["schedules", "histories"],
 "every interleaving of several threads and processes working on the same and on different keys of one database, with any timing of the underlying file locks",
 "All tests are single-threaded.",
 [DS, AD], [("a session and transaction per operation", DS), ("upsert under a race", "insert_data / insert_bulk_data")],
 ["insert_data", "insert_bulk_data", "delete_data", "get_data", "get_data_for_cv", "get_bulk_data"],
 [("connection pool and session factory shared by threads", "AlchemyLimitDistributionStorage.engine/Session", DS)])

prop("C05", "A stored distribution comes back exactly or not at all",
 "The statistic values read back from the store are, in number, order and value, those that were stored, each rounded once to single precision (including empty lists, zeros of both signs, subnormals, infinities and NaN), "
 "whatever other encodings and decodings run at the same time in other threads. If the stored bytes were damaged, truncated or extended afterwards, reading either raises an error or still returns exactly the stored values: it never returns a different list.",
 ["inputs", "schedules", "fault_sequences"],
 "every list of floats of any length, every interleaving of concurrent encoders and decoders, and every corruption (flipped, zeroed, lost or added bytes, torn overwrite) of the stored blob",
 "The tests store single-element lists, in one thread, and never damage a blob.",
 [AD, ORM], [("header with version, value type and count plus a compressed frame", "CompressedFloatArray.process_bind_param / process_result_value")],
 ["insert_data followed by get_data", "database file bytes"],
 [("compression contexts", "shared by every thread that uses the column type", AD)])

prop("C06", "A failed store operation changes nothing and leaves the store usable",
 "When a store operation raises (disk error, full disk, locked database, unencodable data, failed allocation, asynchronous interruption), the records are exactly as before, "
 "or as after a complete success if the failure struck while committing. The same store object keeps working afterwards: once faults stop, every operation succeeds again, no lock, transaction or "
 "pooled connection stays behind, and no number of earlier failures uses the pool up.",
 ["fault_sequences", "histories", "schedules"],
 "every sequence of faults at any file operation or at any line of an operation, any number of failed operations before, followed by fault-free operations from the same and from other clients",
 "No test makes a store operation fail.",
 [DS], [("sessions closed and rolled back on every exit path", DS)],
 ["every storage method", "engine pool status", "a second client's write"],
 [("connection pool", "bounded number of pooled connections", DS)])

prop("C07", "Opening a store is safe at any time, from anyone, after anything",
 "Initialising a store creates what is missing and never alters existing records, however often, by however many clients at once, or after whichever earlier crash it is run: all of several concurrent initialisations of a fresh database succeed. "
 "When the database cannot be used, initialising raises a connection error, while the safe constructor returns nothing instead of raising; a store that it does return is usable at once.",
 ["schedules", "crash_points", "fault_sequences"],
 "every interleaving of any number of clients opening the same fresh or populated database, every crash or I/O error during initialisation, repeated opening",
 "The tests open one in-memory database once, and one unreachable server.",
 [DS, ORM], [("schema creation that tolerates an existing table", "AlchemyLimitDistributionStorage.init"), ("create_safe catches every failure", "AlchemyLimitDistributionStorage.create_safe")],
 ["init", "create_safe"], [("schema", "the limit_distributions table", ORM)])

prop("C08", "Synchronisation reports tell the truth about the local store",
 "If loading a criterion reports success, the local store holds a distribution for that code and size range when the call returns, and if it reports that nothing was found neither side had one when it was looked for. "
 "The report of a bulk load counts every requested code once as already cached, newly cached or not found (a code that was fetched but could not be stored is not counted as cached); every code reported cached, old or new, is then present locally, and every code reported not found was absent at the remote. "
 "A remote or local failure never turns into a false report: it surfaces as an error or is counted truthfully.",
 ["fault_sequences", "histories", "inputs"],
 "every content of local and remote store, every set of requested codes and size tolerance, and every failure (lost request, lost reply, timeout, partition, remote error, local disk error, full disk, locked database) at any step of the synchronisation",
 "The tests cover bulk loading between two healthy in-memory stores; the single load is never called, and nothing fails.",
 [LD, DS, MOD], [("local check, remote fetch, local insert, accounting", "CriticalValueLoader.load / load_bulk")],
 ["load", "load_bulk result", "local storage content"], [("local store / remote store", "the cache and its source", LD)])

prop("C09", "Synchronisation only adds to the local store, and only what the remote sent",
 "Whatever fails during a load or bulk load, every record that the local store held before is still there with the same values, and every record it gained is identical to one the remote store held. "
 "The remote store is never modified, and codes that are already cached locally are not requested from it again. A bulk load adds all it fetched or nothing.",
 ["fault_sequences", "histories", "crash_points", "schedules"],
 "every content of both stores and every failure, crash or interleaving of several loaders sharing the same local store during the synchronisation",
 "The tests look only for the records that should have been added, on healthy stores.",
 [LD, DS], [("fetch only what the local store lacks, insert as one batch", "CriticalValueLoader.load / load_bulk")],
 ["local storage before/after", "remote storage before/after", "calls seen by the remote"], [("local store", "cache of distributions", LD)])

prop("C10", "Synchronisation converges once faults stop, and repeating it is harmless",
 "After any history of failed, crashed or interrupted synchronisations, one fault-free load makes a distribution for the code available locally whenever the remote has one in the requested size range, and one fault-free bulk load does so for every requested code. "
 "Repeating it then reports everything as already cached, adds nothing and asks the remote for none of those codes. Losing the remote altogether keeps locally cached distributions loadable.",
 ["fault_sequences", "histories"],
 "every fault history before the fault-free period, any size tolerance including non-zero, any number of repetitions, remote going away for good",
 "Tests run one bulk load on healthy stores and never repeat it.",
 [LD, DS], [("local lookup uses the same code and size range as the remote one", "CriticalValueLoader.load / load_bulk, get_data_for_cv")],
 ["load", "load_bulk result", "remote call log"], [("local store", "cache of distributions", LD)])

prop("C11", "A statistic's value depends on its arguments only",
 "Evaluating any shipped statistic gives the value it gives in a fresh process evaluating nothing else, whatever was evaluated before, whatever evaluations run at the same time in other threads on the same or other objects, and whatever earlier evaluations were interrupted by an exception. "
 "No evaluation modifies the sample it was given, or keeps using it afterwards.",
 ["schedules", "histories", "fault_sequences"],
 "every shipped statistic, every history of evaluations (including reused and mutated sample buffers) on the same or other objects, every thread interleaving, every point of interruption",
 "Each test evaluates one statistic once per process history that nobody varies, in one thread, and ignores the sample afterwards.",
 [STAT, GOF], [("evaluation without shared mutable state", STAT + "/*.py execute_statistic")],
 ["execute_statistic", "the sample list after the call"], [])

prop("C12", "Monte Carlo null distributions are complete, fresh and uncontaminated",
 "Resolving a null distribution by Monte Carlo returns exactly the requested number of values, each the statistic of its own newly generated sample of the requested size drawn under the statistic's own null hypothesis and parameters. "
 "If generating or evaluating fails or is interrupted at any replication the error surfaces: no partial, padded or stale result is ever returned, then or by a later call. Concurrent and repeated resolutions do not contaminate or repeat one another, and the same seed of the global generator gives the same result.",
 ["schedules", "fault_sequences", "histories"],
 "every statistic, sample size and replication count, every interleaving of concurrent resolutions, every replication at which a failure or interruption strikes, any history of earlier resolutions",
 "Tests use the resolver through a couple of normality and exponentiality statistics only and never inspect which samples were drawn, nor fail a replication.",
 [RES, UG, GEN], [("one generated sample and one evaluation per replication", "MonteCarloLimitDistributionResolver.resolve"), ("generator looked up by distribution and hypothesis parameters", UG)],
 ["resolve", "samples passed to execute_statistic"], [("result array", "replications done so far", RES)])

prop("C13", "Simulated null distributions match the null hypothesis of each statistic",
 "For every shipped goodness-of-fit statistic and any admissible hypothesis parameters, the Monte Carlo null distribution is the law of the statistic on samples from the distribution stated by its hypothesis with those very parameters. "
 "Hence a test with a continuous statistic rejects a true hypothesis with about the stated significance level.",
 ["inputs", "configurations"],
 "every shipped statistic, non-default hypothesis parameters, every seed of the random generator and every sample size",
 "Tests compare a few statistic values with constants and never check which distribution the generator draws from for non-default parameters.",
 [RES, UG, GEN, CORE, STAT], [("hypothesis parameters handed to the generator", "resolve / get_available_generator"), ("hypothesis() of each statistic", STAT)],
 ["resolve", "hypothesis", "GoodnessOfFitTest.test"], [])

prop("C14", "Stored null distributions give the decisions of the distribution itself",
 "A test that takes its null distribution from the store, after any history of storing, updating, synchronising, crashing and reopening, decides as it would on the stored list itself: same p-value or critical value up to single precision, never on a distribution stored for another criterion, other parameters or another sample size. "
 "If no distribution is available the test raises instead of deciding. By the critical-value method no more than the stated share of the null distribution itself (up to one value per tail) lies in the rejection area, ties included.",
 ["histories", "crash_points", "inputs", "fault_sequences"],
 "every null distribution (with and without ties), significance level, observed value, alternative, and every history of store, sync, crash and reopen operations before the decision",
 "Tests give the decision methods fixed small lists or a mock; the storage-backed resolver is not exercised with a real store at all.",
 [RES, GOF, CVC, PVC, CA, DS], [("lookup by code, parameters and size", "StorageLimitDistributionResolver.resolve"), ("p-value and critical-value decision", GOF)],
 ["StorageLimitDistributionResolver.resolve", "GoodnessOfFitTest.test", "PValueDecisionMethod.decide", "CriticalValueDecisionMethod.decide"], [])

prop("C15", "Random generators follow their declared law under any interleaving",
 "Every shipped random generator returns exactly the requested number of independent values from the distribution it names, with exactly the parameters it was constructed with, whatever other generators exist, were used before, failed, or run at the same time. "
 "With the global generator seeded, the same sequence of calls gives the same values, and successive calls give fresh ones.",
 ["schedules", "histories", "inputs", "configurations"],
 "every generator, admissible parameters, sizes, random seeds, and every interleaving and history of calls on several generator objects",
 "Tests check that generators return a list of the right length or summary codes, single-threaded, mostly with default parameters.",
 [GEN, CORE, UG], [("each generator passes its own parameters to its sampling function", GEN)],
 ["generate"], [("global random state", "numpy's shared generator", CORE)])

prop("C16", "Registry lookups do not depend on process accidents",
 "Finding the generator, the descriptor or the criteria of a distribution gives the same answer in every process: the one shipped for that distribution, independent of hash seed, memory layout, import order, earlier lookups or concurrent lookups. "
 "Each distribution type that a shipped statistic names has exactly one generator, and a lookup for a type without one fails instead of answering with another's.",
 ["configurations", "schedules", "histories"],
 "every distribution type, every iteration order of the class registries, every import order and every interleaving of lookups",
 "Tests look a few types up in one process with one memory layout.",
 [UG, US, UD, GEN], [("walk of the subclass tree", "get_available_generator / get_available_criteria / get_available_distribution_descriptor")],
 ["get_available_generator", "get_available_criteria", "get_available_distribution_descriptor"], [])

prop("C17", "Multiple-testing adjustments control the error rate they name",
 "In any course of experiments whose true hypotheses have uniform p-values, rejecting the hypotheses whose adjusted p-values are at most alpha rejects a true one in a share of at most alpha of the families "
 "(Bonferroni, Holm: however the p-values depend on each other; Sidak, Sidak-Holm: independent or positively dependent ones), or gives a mean share of at most alpha of false ones among the rejections "
 "(Benjamini-Yekutieli, any dependence), wherever the false hypotheses lie. Adjusted p-values lie in [0, 1], belong to their hypothesis, are never below the raw ones (up to rounding) and preserve their order; "
 "test rejects exactly by them and refuses p-values outside [0, 1]. An adjustment gives what it gives alone, whatever other adjustments run at the same time, ran before or were interrupted, and leaves the caller's list alone.",
 ["inputs", "histories", "schedules"],
 "every number of hypotheses, every joint law of the p-values of true hypotheses with uniform marginals, every level, every position of the false ones, every interleaving with other adjustments",
 "Tests compare a handful of fixed p-value vectors; an error rate is a property of all courses of experiments, dependent ones included.",
 [S + "hypothesis_testing/multiple_testing/fwer.py", S + "hypothesis_testing/multiple_testing/fdr.py", S + "hypothesis_testing/multiple_testing/abstract_multiple_testing.py"],
 [("adjust / test", "AbstractMultipleTesting and its subclasses")], ["adjust", "test"])

# ---- pure functions: listed for completeness, not claimed
prop("C18", "Each statistic computes its published formula",
 "Each statistic's value equals the published definition of the criterion it is named for, on every admissible sample.",
 ["inputs"], "every admissible sample and parameter of each of the roughly two hundred statistics", "Tests compare one or two samples with constants.",
 [STAT], [("execute_statistic", STAT)], ["execute_statistic"])
prop("C19", "Maximum-likelihood estimates maximise the likelihood",
 "The estimators return, for every admissible sample, admissible parameters at which the likelihood of the sample is maximal.",
 ["inputs"], "every admissible sample", "Tests check a few generated samples per distribution.",
 [S + "estimation/maximum_likelihood"], [("closed-form and numerical estimators", S + "estimation/maximum_likelihood")], ["estimate"])
prop("C20", "Density, distribution function and sampling law of a distribution agree",
 "For every distribution the density integrates to the distribution function, the quantile function inverts it, and invalid parameters are rejected.",
 ["inputs"], "every admissible parameter vector and argument", "Tests sample single points.",
 [CORE, S + "distribution"], [("pdf/cdf/ppf functions, descriptors and validators", CORE)], ["pdf", "cdf", "descriptor"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
