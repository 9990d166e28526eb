"""Source of properties.jsonl, MANIFEST.json and of the coverage rules of the evidence (python tools/gen.py)."""
D = 'DRecPy/Dataset/'
MEM, DB, ABC, FAC, FU = D + 'mem_dataset.py', D + 'db_dataset.py', D + 'dataset_abc.py', D + 'dataset_factory.py', D + 'file_utils.py'
E = 'DRecPy/Evaluation/'
LKO, MSP, RSP = E + 'Splits/leave_k_out.py', E + 'Splits/matrix_split.py', E + 'Splits/random_split.py'

SPECS = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, rule, assumptions=(), state=(), observe=()):
    SPECS.append(dict(
        doc=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                              **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                              observe_at=list(observe) or ['return values of the public API'], hook_needed=None)),
        technique=technique, note=note, rule=rule, assumptions=list(assumptions)))


BOTH = 'Every kind of dataset is driven: in memory from a table or a csv file, out of memory from a csv file or a sqlite file.'
DOM = 'values within a column have one type; floats are multiples of 1/16 (exact in every parser); no NA-like strings'

prop('C01', 'Datasets answer like a table of rows, whatever the backend and history',
     'After any sequence of filtering, projecting, deduplicating, dropping, copying, transforming and id-assigning operations, a dataset holds exactly the rows and columns that the same sequence yields on a plain table of records, and every reading operation (length, columns, records, existence, first match, minimum, maximum, distinct count) agrees with that table. '
     'In-memory and out-of-memory datasets built from the same data answer identically. Row identifiers never change or repeat.',
     ['histories', 'inputs', 'configurations'], 'all histories of dataset operations, over all tables of interactions, for every backend and every auxiliary-structure optimisation threshold',
     'Tests run fixed two-step sequences on a handful of tiny datasets; state accumulated by long chains (deferred filters, auxiliary tables, cached vectors, shared tables) is never reached.',
     [MEM, DB, ABC, FAC],
     [('deferred selection state and its optimisation into auxiliary tables', DB), ('pandas frame operations', MEM), ('dataset interface', ABC)],
     'runtime monitoring: random operation histories on the real datasets, every answer compared online with a reference table',
     'Sampled histories (tens of thousands of steps per run) compared after each step with an independent reference model; it trusts the model (40 lines of plain Python).',
     'A case is one generated history on one dataset kind; it is non-trivial if it reached a table content (kind, columns, rows) that no earlier case reached.',
     [DOM, 'datasets are not used after being closed; a generator open on a dataset that is then changed in place yields unspecified rows'],
     state=[('selection state', 'the rows and columns of a derived dataset', DB)],
     observe=['values(), values_list(), len(), columns, min(), max(), count_unique(), exists(), select_one()'])

prop('C02', 'A query selects exactly the rows satisfying all of its conditions',
     'Filtering by a query returns every row that satisfies all of its comparisons under the ordinary order of numbers and strings, and no other row, for identifiers and values of any type, including strings with spaces, commas, quotes or operator characters and integers beyond the precision of floats. '
     'Existence and first-match queries agree with it, a condition and its negation partition the rows, and conditions may be applied one by one in any order.',
     ['inputs', 'programs', 'configurations'], 'all queries (conjunctions of ==, !=, <, <=, >, >= over any column) on all tables, for every backend',
     'Tests query a few integer columns of one small csv; value types, quoting, precision and operator/column combinations are unbounded.',
     [ABC, MEM, DB], [('query splitting and parsing', ABC), ('condition evaluation, raw to internal id translation', MEM), ('SQL generation and parameter quoting', DB)],
     'runtime monitoring: generated queries, results compared online with direct evaluation on the reference rows',
     'Thousands of generated queries per run; the oracle evaluates the conditions in Python on the original rows.',
     'A case is a dataset and 12 queries on it; non-trivial if some (kind, conditions, number of matches) was new.', [DOM])

prop('C03', 'Deriving, modifying or discarding a dataset never affects another one',
     'An operation that returns a new dataset leaves the original untouched, and later modifications, internal id assignments, transformations or disposal of either are invisible in the other and in any dataset derived earlier, even though datasets share storage. The lists and values passed by the caller are never modified.',
     ['histories', 'configurations'], 'all trees of derived datasets and all interleavings of operations, garbage collection and closing over them',
     'Tests check single parent/child pairs after one operation; sharing bugs need particular multi-step interleavings over several live datasets of the same storage.',
     [MEM, DB], [('table sharing and copy-on-write', DB), ('frame copies and in-place flags', MEM)],
     'runtime monitoring: several live datasets of the same storage in interleaved random histories, all compared with their own reference after every step',
     'Sampled interleavings; every live dataset is re-read in full after a share of the steps.',
     'A case is a history over a family of datasets sharing storage; non-trivial if it reached new contents.', [DOM])

prop('C04', 'Internal ids are a gap-free bijection with raw ids and translations are inverse',
     'After internal ids are assigned, the users of the dataset are numbered 0..U-1 and the items 0..I-1 without gaps or repetitions, every row carries the numbers of its own user and item, and the translations between raw and internal ids are mutually inverse; unknown ids translate to nothing. '
     'Assigning again, on the dataset or on one derived from it, renumbers exactly the rows it holds and removing the ids restores the previous columns.',
     ['inputs', 'histories'], 'all datasets with integer, float or string ids, filtered in any way before or after the assignment',
     'Tests assign ids once on complete small integer datasets.',
     [MEM, DB], [('id assignment', MEM + ', ' + DB), ('raw/internal id lookups', MEM + ', ' + DB)],
     'runtime monitoring: bijection and inverse checks of all ids after random histories',
     'All ids of every generated dataset are translated both ways.', 'A case is a history with assignments; non-trivial if an id mapping not seen before was observed.',
     [DOM, 'translating an id absent from a filtered dataset is left open'])

prop('C05', 'Interaction vectors hold exactly the interactions of their user or item',
     'The interaction vector of a user has one entry per item, equal to the interaction of that user with that item in the dataset and zero where there is none, and symmetrically for items, whichever vectors were requested before, however the dataset was filtered or modified since, whatever the cache limits, and whatever the caller did with vectors returned before.',
     ['histories', 'configurations', 'inputs'], 'all orders of vector requests, filters and modifications, for every cache limit and backend',
     'Tests request a few vectors on an unfiltered dataset; caches go stale only after specific sequences of filtering, modification and eviction.',
     [MEM, DB], [('vector caches and eviction', MEM + ', ' + DB)],
     'runtime monitoring: vectors compared online with the rows of the reference in random request/modify histories',
     'Every requested vector is compared in full.', 'A case is a history of vector requests; non-trivial if a new vector was observed.', [DOM])

prop('C06', 'A saved dataset loads back with the same rows',
     'Saving a dataset, filtered in any way and with any subset of its columns, and loading the result with any backend gives a dataset with the same values in the same columns, for text (any delimiter, with or without header) and database files. Saving never changes the dataset that is saved, the file it came from, nor any other dataset.',
     ['histories', 'inputs', 'configurations'], 'all datasets, column subsets, delimiters and pairs of saving and loading backends, including repeated saves onto the same path',
     'Tests save once and check that the file exists or reload a numeric csv.',
     [MEM, DB, FAC], [('csv writer and database export', DB), ('csv writer', MEM), ('column types of loaded files', FAC + ', ' + DB)],
     'runtime monitoring: save/load round trips over random datasets and backends, compared with the reference rows',
     'Every round trip is compared in full, with the source dataset re-read afterwards.', 'A case is one dataset saved and loaded along several paths; non-trivial if its content and format were new.', [DOM])

prop('C07', 'Temporary storage is always released, and released data is never in use',
     'The temporary files of out-of-memory datasets exist as long as a dataset that uses them is alive and are all gone, with their registrations, once every such dataset is closed, collected or the process ends. If the process is killed at any point, the next process removes what was left, and never removes files it does not own, such as databases saved or loaded by the user.',
     ['crash_points', 'histories', 'schedules'], 'all histories of creating, deriving, closing and collecting datasets, and a kill at any step',
     'Tests never kill a process nor look at the data folder.',
     [DB, FU], [('reference counting of the shared database file', DB), ('registry of temporary files and clean-up on start', FU)],
     'runtime monitoring: file-system monitor over random lifetimes, child processes killed at random steps, then restarted',
     'Crash points are sampled (including inside the registry file update); each crash is followed by a fresh process whose clean-up is observed.',
     'A case is a history of dataset lifetimes, ended by release or by a kill; non-trivial if it observed a new set of live files.',
     ['one process at a time uses a data folder'],
     observe=['files of the data folder', 'temporary files registry', 'records read from live datasets'])

prop('C08', 'Loading gives the rows of the file, identically in and out of memory',
     'A dataset loaded from a delimited text file has exactly one row per data line and the values written there, with integers, floats and strings kept apart, for any column order, delimiter, encoding, header, skipped lines, blank lines and chunk size. A dataset read from a data frame has its rows too, for any names of its columns and any index, and leaves the frame as it was. The in-memory and out-of-memory loaders agree on rows and types.',
     ['inputs', 'configurations'], 'all well-formed files and data frames, and all loading options',
     'Tests load four fixed comma-separated numeric files.',
     [MEM, DB, FAC], [('csv parsing and type inference', DB), ('pandas parsing', MEM)],
     'runtime monitoring: generated files loaded by both loaders, compared with the rows they were written from',
     'Every generated file is compared row by row, including the types.', 'A case is one generated file and its options; non-trivial if content and format were new.', [DOM])

prop('C09', 'An operation that fails leaves every dataset as it was',
     'When an operation raises (malformed query, unknown column or operator, failing user function, unwritable path, read-only columns), the dataset and every dataset sharing its storage keep their rows, columns, ids and vectors and stay fully usable.',
     ['fault_sequences', 'histories', 'inputs'], 'all failing operations injected at any point of any history',
     'Tests only assert that an exception is raised, not the state it leaves behind.',
     [MEM, DB], [('transactions and rollback', DB), ('validation before modification', MEM + ', ' + DB)],
     'runtime monitoring with fault injection: failing operations inside random histories, full state comparison before and after',
     'Faults are sampled from the documented failing calls plus user functions that raise on their n-th call.', 'A case is a history with injected failures; non-trivial if a (failure, content) pair was new.', [DOM])

prop('C10', 'Datasets can be read by many threads at once',
     'Reads of the same dataset, or of datasets sharing its storage, issued by any number of threads return what they return when issued alone, in every schedule: no row is lost, duplicated or mixed with another record, no error is raised and nothing blocks forever.',
     ['schedules', 'histories'], 'all interleavings of concurrent queries, vector requests, id lookups and generators',
     'No test reads a dataset from two threads, though the evaluation processes and splits do.',
     [MEM, DB], [('connection lock', DB), ('vector caches', MEM + ', ' + DB)],
     'runtime monitoring: stress with many threads and a tiny switch interval, each answer checked against the sequential one',
     'Schedules are sampled; the number of thread switches observed inside operations is reported.', 'A case is one concurrent workload; non-trivial if its interleaving signature was new.', [DOM])

prop('C11', 'Random and null-pair generators yield what they promise, and all of it',
     'A random record generator yields rows of the dataset that satisfy its query and can reach all of them; a null-pair generator yields pairs of existing user and item that have no interaction, or one below the given threshold, and can reach all the pairs without interaction. The same seed gives the same sequence.',
     ['inputs', 'histories', 'configurations'], 'all datasets, queries, thresholds and seeds',
     'Tests draw a few records from one dataset.',
     [MEM, DB, ABC], [('random generators', MEM + ', ' + DB), ('null pair generators', MEM + ', ' + DB)],
     'runtime monitoring: every drawn record is checked against the reference rows; reachability and reproducibility by repeated draws',
     'Reachability is judged after a number of draws that makes a miss less likely than 1e-9.', 'A case is one generator run; non-trivial if a new (dataset, query) was sampled.', [DOM])

prop('C12', 'Splits put every row either in training or in test data, intact',
     'Whatever the splitting method and its parameters, the training and test datasets together hold exactly the rows of the original dataset, each in only one of the two, with all their values intact, except that a method with a minimum number of interactions per user may leave out whole users with fewer than that minimum. The original dataset is unchanged.',
     ['inputs', 'configurations'], 'all datasets, methods and parameters',
     'Tests compare the sizes of splits of two fixed files.',
     [LKO, MSP, RSP], [('leave k out', LKO), ('matrix split', MSP), ('random split', RSP)],
     'runtime monitoring: conservation of rows over every split of generated datasets',
     'Row identities and values are compared in full.', 'A case is one split; non-trivial if its resulting partition was new.', [DOM])

prop('C13', 'Leave-k-out keeps out exactly k rows per user, or the latest ones',
     'Every user with enough interactions has exactly k of them (or the requested fraction of them) in the test data, the most recent ones when asked by timestamp and a random choice that can reach every row otherwise; users with no more than that keep all their rows in training, and only users with fewer rows than the requested minimum are left out.',
     ['inputs', 'configurations'], 'all datasets, values of k, minimum sizes and seeds',
     'Tests check counts on one fixed file.',
     [LKO], [('per-user selection', LKO)],
     'runtime monitoring: per-user counts and timestamps of every split checked against the rows',
     'The known defect on rows that are not in chronological order is identified by its exact result; anything else is reported.', 'A case is one split; non-trivial if its partition was new.',
     [DOM, 'rows whose timestamps tie may be chosen freely'])

prop('C14', 'Matrix and random splits take exactly the requested share of the data',
     'The matrix split samples at most the requested share of users and of items and puts in the test data exactly the rows of sampled users with sampled items, never all the rows of a user, leaving every other row in the training data. The random split puts in the test data exactly the requested share of all rows, and both choices vary with the seed.',
     ['inputs', 'configurations'], 'all datasets, ratios and seeds',
     'Tests check totals on one fixed file.',
     [MSP, RSP], [('matrix split', MSP), ('random split', RSP)],
     'runtime monitoring: exact counts per user of every split', 'All users of every generated split are counted.', 'A case is one split; non-trivial if its partition was new.', [DOM])

prop('C15', 'Splits depend only on the data and the seed, never hang and report failures',
     'With the same data, parameters and seed every split is the same for any number of threads, any schedule and any kind of dataset. A failure while some user is processed reaches the caller, and the call always returns.',
     ['schedules', 'fault_sequences', 'configurations'], 'all thread counts, interleavings and failing users',
     'Tests run one schedule on healthy data and compare sizes.',
     [LKO, MSP, RSP], [('worker threads and their result queue', LKO + ', ' + MSP)],
     'runtime monitoring: injected delays and failures per user, resulting splits compared across schedules, thread counts and backends',
     'Schedules come from random delays injected in each access to the dataset; distinct orders observed are counted.', 'A case is one seeded split run under several schedules; non-trivial if its set of schedules was new.', [DOM])

S, R = 'DRecPy/Sampler/', 'DRecPy/Recommender/'
PS, LS = S + 'point_sampler.py', S + 'list_sampler.py'
EP = E + 'Processes/'
RK, RE, PE = EP + 'ranking_evaluation.py', EP + 'recommendation_evaluation.py', EP + 'predictive_evaluation.py'
RABC, CDAE, DMF, CASER = R + 'recommender_abc.py', R + 'cdae.py', R + 'dmf.py', R + 'caser.py'
BL = R + 'Baseline/'

prop('C16', 'Point samples are real positives and true negatives in the asked ratio',
     'Every positive sample is a row of the dataset whose interaction reaches the threshold, with its own value; every negative sample is a (user, item) pair without interaction or with one below the threshold, valued 0. Exactly the requested number is returned, negatives appear neg_ratio times as often as positives, all positives can be reached, and the same seed gives the same samples whatever other randomness the program uses. Sampling does not change the dataset.',
     ['inputs', 'configurations', 'histories'], 'all datasets, thresholds, ratios, seeds and sequences of sampling calls',
     'The samplers have no tests at all; a mislabelled sample silently degrades training instead of failing.',
     [PS], [('positive and null pair generators, ratio', PS), ('null pair generation', MEM + ', ' + DB)],
     'runtime monitoring: every sample classified against the reference rows; statistical check of the ratio; re-run with the same seed',
     'The ratio is judged on 1500 samples at six standard deviations, with fixed seeds.', 'A case is one dataset and a sequence of sampling calls; non-trivial if a new (dataset, parameters, samples) was observed.', [DOM])

prop('C17', 'List samples are ordered sequences of one group followed by its targets',
     'Each sample holds positive records of one single group, in the order of the sorting column, within the requested minimum and maximum length, then the requested number of target records that directly follow them, and negative ids with which the group has no positive record. Groups too small for the request are never sampled, all the others can be. The same seed gives the same samples, and the dataset does not change.',
     ['inputs', 'configurations', 'histories'], 'all datasets, groupings, lengths, numbers of targets, ratios, thresholds and seeds',
     'The samplers have no tests at all; a sequence out of order or with a leaked target only shows as a worse model.',
     [LS], [('sequence selection', LS), ('negative ids', LS)],
     'runtime monitoring: every sampled sequence checked against the sorted records of its group',
     'All sampled sequences are checked in full.', 'A case is one dataset with three sampler configurations; non-trivial if a new set of samples was observed.', [DOM])

prop('C18', 'Every metric equals its definition, for any lists, cut-off and relevancies',
     'Precision, recall, F-score, hit ratio, NDCG, reciprocal rank, average precision, MAE, MSE and RMSE give the value of their published definition for every recommended list, relevant set, relevancies and cut-off k, are in their range, never modify their arguments, and give the same value when called again or from several threads.',
     ['inputs', 'schedules'], 'all recommended lists, relevant sets, relevancies, cut-offs and parameters, and all call orders',
     'Tests check a few short lists per metric.',
     [E + 'Metrics/ranking.py', E + 'Metrics/regression.py', E + 'Metrics/metric_abc.py'],
     [('ranking metrics', E + 'Metrics/ranking.py'), ('error metrics', E + 'Metrics/regression.py')],
     'runtime monitoring: generated calls compared online with independent definitions, shared metric objects called from many threads',
     'Each value is compared with a direct transcription of its definition.', 'A case is a set of lists evaluated with all metrics; non-trivial if new.',
     ['metrics whose definition divides by zero raise, and are then left out by the evaluation processes (pinned by the tests)', 'for duplicated items in a list only the first occurrence has a defined rank'])

prop('C19', 'Ranking evaluation averages each metric over valid samples, any schedule',
     'Each test user (at most the requested number of them) with enough positive items is ranked once, on exactly the requested number (or all) of its positive test items and on the requested number (or all) of its negative test items, completed when asked by items of the model that the user has no positive interaction with, in train or test data. Each reported value is the mean of its metric over the users, computed on the ranking the model returned, and is the same for any number of threads and any schedule, and for the same seed. Train and test datasets do not change.',
     ['schedules', 'inputs', 'configurations'], 'all datasets, models, metrics, sampling parameters, seeds, thread counts and schedules',
     'Tests compare fixed values for one model and file with default settings; they do not see what the model was asked, and run each schedule once.',
     [RK], [('sampling of positives and negatives per user', RK), ('worker threads and aggregation', RK)],
     'runtime monitoring: a recording model sees every request, an offline checker validates it and recomputes the reported means; injected delays vary the schedule',
     'Every request and every reported number is checked; schedules are sampled by injected delays.', 'A case is one evaluation run under several schedules; non-trivial if a new (requests, results) was observed.', [DOM],
     observe=['the lists the model is asked to rank', 'the returned results'])

prop('C20', 'Recommendation evaluation averages each metric over the right users',
     'Exactly the test users (at most the requested number) with enough positive test items are evaluated, once each, on the recommendations of the model with the requested novelty, length and minimum prediction; the relevant items are the positive test items of the user, or the requested number of them drawn following the seed, and relevancies are the test interactions. Each reported value is the mean of its metric over these users, the same for any number of threads and any schedule. Train and test datasets do not change.',
     ['schedules', 'inputs', 'configurations'], 'all datasets, models, metrics, cut-offs, seeds, thread counts and schedules',
     'Tests compare fixed values for one model and file; they run each schedule once and do not see what the model was asked.',
     [RE], [('user selection and relevance', RE), ('worker threads and aggregation', RE)],
     'runtime monitoring: a recording model sees every request, an offline checker recomputes the reported means; injected delays vary the schedule',
     'Every request and every reported number is checked; schedules are sampled by injected delays.', 'A case is one evaluation run under several schedules; non-trivial if a new (requests, results) was observed.', [DOM],
     observe=['the recommendations the model is asked for', 'the returned results'])

prop('C21', 'Predictive evaluation measures the error over exactly the right rows',
     'Every reported value is the error metric between the predictions of exactly the test rows, each taken once up to the requested number, and the interactions of those same rows. Rows without prediction are left out or counted as zero, and failing predictions skipped or reported, as requested. Datasets do not change.',
     ['inputs', 'configurations'], 'all datasets, models with missing predictions, metrics and parameters',
     'Tests compare fixed values for one model and file.',
     [PE], [('row selection and pairing with predictions', PE)],
     'runtime monitoring: a recording model logs each requested prediction, an offline checker recomputes the errors',
     'Every prediction and every reported number is checked.', 'A case is one evaluation; non-trivial if new predictions and results were observed.', [DOM, 'at least one prediction is possible'],
     observe=['the predictions the model is asked for', 'the returned results'])

prop('C22', 'Predict, rank and recommend agree and keep their promises in every model',
     'For every recommender: rank returns only requested items, at most n of them, without repetition, in decreasing order of score; the score of an item is its prediction and does not depend on the other items requested; with novelty, no item the user already interacted with is returned, and without it all predictable items are. Recommend returns the n best of rank over all items that reach the threshold. Unknown users and items are refused or skipped as requested, an unfitted model refuses to answer, and all of it also holds from several threads at once.',
     ['inputs', 'configurations', 'schedules'], 'all models, parameters, datasets and requests',
     'Tests only exercise the neighbour models on one small dataset; no test fits a deep model, or relates the three operations to each other.',
     [RABC, CDAE, DMF, CASER, BL + 'base_knn.py', BL + 'user_knn.py'],
     [('public operations, id translation', RABC), ('ranking of each model', CDAE + ', ' + CASER + ', ' + BL + 'user_knn.py')],
     'runtime monitoring: cross-checks of all three operations on fitted small models of every type',
     'Small models on small data; all users and items of each case are cross-checked.', 'A case is one fitted model; non-trivial if its parameters and scores were new.',
     [DOM, 'Caser users have at least L interactions', 'UserKNN does not rank items that no neighbour rated, as its tests require'])

prop('C23', 'Neighbour-based models predict what their definition says',
     'UserKNN and ItemKNN predict, for every user and item, the configured aggregation of the interactions that the k most similar users or items have with it, under the configured similarity, discounted by the shrinkage and void below m co-ratings; without any such interaction they give the documented average or no prediction. Rankings follow these predictions, and fitting again on other data forgets the former.',
     ['inputs', 'configurations', 'histories'], 'all datasets and all combinations of similarity, aggregation, k, m, shrinkage and averages',
     'Tests check some predictions of one dataset for a few combinations.',
     [BL + 'base_knn.py', BL + 'user_knn.py', BL + 'item_knn.py'],
     [('neighbour selection and aggregation', BL + 'base_knn.py'), ('similarities between users or items', BL + 'user_knn.py, ' + BL + 'item_knn.py')],
     'runtime monitoring: every prediction compared with a brute force implementation of the definition',
     'All user and item pairs of each case are predicted; ties between neighbours are accepted either way.', 'A case is one fitted model; non-trivial if data and parameters were new.',
     [DOM, 'one interaction per user and item'])

prop('C24', 'Similarities and aggregations equal their definitions on any sparse matrix',
     'The cosine, co-rated cosine, adjusted cosine, Jaccard, Pearson and mean squared difference similarities give, for each pair of rows, the value of their definition, symmetric, within range and without similarity for empty rows, for any sparse format or array; the matrix given is not modified. Mean and weighted mean give their definition or nothing when undefined.',
     ['inputs'], 'all matrices and formats',
     'Tests check two fixed 4-row matrices.',
     [BL + 'similarity.py', BL + 'aggregation.py'], [('similarity functions', BL + 'similarity.py'), ('aggregations', BL + 'aggregation.py')],
     'runtime monitoring: generated matrices, every similarity compared with an independent definition',
     'Every entry of each matrix is compared.', 'A case is one matrix; non-trivial if it was new.',
     ['no stored zero interactions', 'the Pearson matrix may leave out trailing rows without similarity, as its tests require'])

prop('C25', 'fit() performs exactly the requested training and reports it faithfully',
     'Fitting a model prepares it once and then, for each of the requested epochs and no other, samples a batch of the requested size, predicts it, computes its loss and regularization and updates every registered variable, layer and model by one step of the selected optimizer: the one given to fit, otherwise the one of the model, otherwise Adam with the requested learning rate. '
     'The stored weights of every epoch, the losses, and the model seen by the epoch callbacks (called at the documented epochs only) are exactly those of that epoch. Fitting again starts over, and the facts kept about the data are true.',
     ['histories', 'configurations', 'inputs'], 'all trained models (any mix of variables, layers and networks), training arguments, callbacks and successive calls to fit',
     'No stable test trains a model; the trajectory of the weights over many epochs depends on every step of the loop.',
     [RABC, 'DRecPy/Evaluation/loss_tracker.py', CDAE, CASER],
     [('training loop', RABC), ('storage of epoch weights', RABC), ('loss tracking', 'DRecPy/Evaluation/loss_tracker.py')],
     'runtime monitoring: recorded step trace checked against the specified sequence, and every epoch replayed by an independent numpy training',
     'The whole trajectory of each training is compared, with the tolerance of single precision; library models are checked for the sequence, and for finite weights that follow their gradients.',
     'A case is one model fitted once or twice; non-trivial if its layout was new.', [DOM, 'the weights do not overflow'],
     state=[('epoch weights', 'weights after every epoch', RABC)], observe=['the hooks of the model', 'the epoch callbacks', 'the weights'])

prop('C26', 'Early stopping reverts the model to the exact weights of its best epoch',
     'The early stopping rule is computed at the documented epochs with all the losses and callback results up to then; training stops when, and only when, the rule says so; afterwards the weights of the model are exactly those it had after the epoch last chosen by the rule, including the initial ones, or the last ones if the rule never could be computed. '
     'The maximum value rule chooses the first epoch with the maximum of its metric, with or without cut-off in its name, and rules refuse results without their metrics.',
     ['histories', 'configurations', 'fault_sequences'], 'all metric sequences, rules, frequencies, stopping decisions and rule failures',
     'Tests only compute the rule on fixed lists; no test runs it inside the training of a model.',
     [RABC, 'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py', 'DRecPy/Recommender/EarlyStopping/max_validation_value_rule.py'],
     [('early stopping in the training loop, weight reversal', RABC), ('rules', 'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py')],
     'runtime monitoring: scripted metrics and rules, expected schedule and weights computed by an independent replay of the training',
     'Every training is compared in full; rules are compared on generated results.', 'A case is one training or a set of rule computations; non-trivial if its arguments were new.',
     ['the metrics are numbers and the same at every callback', 'the weights do not overflow'], observe=['the rule and callback invocations', 'the final and stored weights'])

prop('C27', 'Everything that takes a seed gives the same results again, in any process',
     'With the same data, arguments and seed, the splits, samplers, generators, evaluation processes and models built and then fitted give the same results again, whatever the state of the global random generators, and in other processes, where strings hash differently; splits, evaluations and neighbour models also on any kind of dataset and number of threads.',
     ['configurations', 'schedules', 'inputs'], 'all data, seeds, processes, thread counts and former random states',
     'Tests run in one process, with fixed integer ids and one thread order.',
     [LKO, MSP, RSP, 'DRecPy/Sampler/list_sampler.py', 'DRecPy/Sampler/point_sampler.py', RABC, 'DRecPy/Evaluation/Processes/ranking_evaluation.py'],
     [('seeds of splits and evaluations', LKO + ', ' + MSP), ('seeds of models and samplers', RABC + ', DRecPy/Sampler/list_sampler.py')],
     'runtime monitoring: the same calls repeated under perturbed random state, threads, backends and hash seeds, results compared',
     'Sampled calls; other processes run with random hash seeds.', 'A case is one call repeated, or 18 calls repeated in another process; non-trivial if its results were new.',
     [DOM, 'a model is fitted after being built, without building other models in between', 'concurrent processes use different data folders'])

prop('C28', 'Saved models answer as before when loaded, here or in another process',
     'A model that is saved and loaded, in the same or another process and even after its dataset is gone, gives the same predictions, rankings and recommendations as before; saving does not change it, the loaded model and the original are independent of each other, both can be fitted again, and an unfitted model stays unfitted.',
     ['inputs', 'configurations', 'histories'], 'all models, parameters and datasets',
     'No test saves a model.', [RABC, 'DRecPy/Sampler/point_sampler.py', MEM],
     [('save and load', RABC), ('state of samplers', 'DRecPy/Sampler/point_sampler.py')],
     'runtime monitoring: all answers of models compared before saving, after saving and after loading in this or another process',
     'All predictions and rankings of each case are compared. Models fitted on out of memory datasets can not be saved (known finding).', 'A case is one model, or ten models loaded in another process; non-trivial if its answers were new.',
     [DOM, 'a deep model fitted with no epochs has been used before it is saved', 'crashes while saving are not covered'])

prop('C29', 'Integrated datasets hold exactly the published data, whatever fails meanwhile',
     'The full, train and test versions of each integrated dataset contain exactly the published rows; without published train and test files, these are a deterministic split of the users with enough interactions. They are downloaded once, and read from disk afterwards. '
     'A failed or truncated download, an error of the server or the end of the process at any moment of the download, extraction or generation never makes a later call return other data, and changes of the returned datasets never reach the stored ones.',
     ['fault_sequences', 'crash_points', 'histories', 'configurations'], 'all datasets, published contents, sequences of calls, failures and stopping points',
     'The tests need the network and never fail in the middle.', [D + 'integrated_datasets.py', FU],
     [('download and extraction', D + 'integrated_datasets.py'), ('generation and storage of train and test data', D + 'integrated_datasets.py')],
     'runtime monitoring: simulated server and generated archives, execution stopped at a chosen file system operation or line, stored data compared with the published one',
     'Stopping points are sampled over all file operations (audit hook) and lines of the module; writes cut by the operating system are not simulated.',
     'A case is a history of calls and failures on one dataset; non-trivial if its contents were new.', ['published data has at least one user with more than ten interactions', 'one process at a time'],
     observe=['the returned datasets', 'the requests to the server'])

prop('C30', 'Trained recommenders score and learn what their definition says',
     'The scores of CDAE, DMF and Caser are those of their definition (reconstruction of the binarized preferences, cosine of the two embedded interaction vectors within the range of the interactions, convolutions over the last L items) for their current weights, and the loss of every training epoch is that of the sampled batch, with its desired values and regularization. '
     'So scores do not depend on anything else: order of the rows, values on the same side of the threshold, other users, older items. Training separates the items of the group of a user from others.',
     ['inputs', 'configurations'], 'all data, parameters and weights',
     'No stable test fits a deep model.', [CDAE, DMF, CASER, 'DRecPy/Sampler/list_sampler.py'],
     [('scores and losses', CDAE + ', ' + DMF + ', ' + CASER)],
     'runtime monitoring: scores and losses compared with independent numpy definitions, metamorphic changes of the data, and training on separable data',
     'All scores and losses of each case are compared, except where single precision can not decide. Losses with corruption or dropout must be those of one of the enumerated choices of dropped inputs, and the choices must follow the rate.',
     'A case is one model; non-trivial if its scores were new.', [DOM, 'interactions are not all equal', 'Caser users have at least L interactions'])

prop('C31', 'Progress reports, log files and graphs show the true values, and only when asked',
     'What is reported about a training is true: the initial summary (interaction range, threshold, numbers of users, items and records, sparsity), the loss and the latest metrics of every epoch, the best epoch, the reverted epoch, and the curves of the final graph. '
     'A log file holds exactly the messages of its own model, however trainings of several models are interleaved. The graph of an evaluation shows the returned results. '
     'With verbose=False nothing is printed, drawn or logged, and with verbose=True all results and data are the same as without it.',
     ['inputs', 'configurations', 'histories'], 'all trainings, evaluations and datasets, quiet or verbose',
     'Tests run everything with verbose=False, and look at no log, graph or output.', [E + 'loss_tracker.py', 'DRecPy/Recommender/recommender_abc.py', E + 'Processes/ranking_evaluation.py', E + 'Processes/recommendation_evaluation.py', ABC, DB],
     [('losses and metrics kept and drawn', E + 'loss_tracker.py'), ('messages of models', 'DRecPy/Recommender/recommender_abc.py')],
     'runtime monitoring: logs, console output and drawn figures of real runs compared with an independent replay of the training and with the returned results',
     'Messages are read leniently (labels and numbers only); positions of the losses on the horizontal axis are not compared; errors and warnings about skipped users are not progress reports.',
     'A case is one training, set of models, evaluation or dataset; non-trivial if it was new.', [DOM])

prop('C32', 'An option that is left out has its documented default',
     'Every public operation with optional arguments (splits, samplers, evaluation processes, metrics, recommenders, training, predictions, rankings, recommendations, and operations of datasets) '
     'does the same when an option is left out as when it is given its documented default value, whatever the values of the other options, and options mean the same given by position or by name.',
     ['inputs', 'configurations'], 'all operations, data, and sets of options left out',
     'Tests give few options, and no test compares the results with those of the explicit default.', ['DRecPy/Evaluation/Splits/leave_k_out.py', E + 'Processes/ranking_evaluation.py', 'DRecPy/Recommender/recommender_abc.py', 'DRecPy/Sampler/list_sampler.py', ABC],
     [('default values', 'signatures and documentation of the public operations')],
     'runtime monitoring: differential executions of each operation with explicit and omitted options, observing results, state and events',
     'The defaults are those of the documentation. Default seeds that are None can not be compared. Numbers of threads are not observed.',
     'A case is one operation on one generated input; non-trivial if it was new.', [DOM])

prop('C33', 'Requests that can not be honoured are refused, and leave nothing behind',
     'A request outside of what an operation is documented to accept (ratios, counts, cut-offs or numbers of threads out of range, unknown columns, names, metrics, losses or ids, missing data, datasets without internal ids, models that are not fitted, callbacks with other results, records that can not exist) '
     'raises an error instead of returning something, and leaves datasets, models, files, callers\' arguments and threads as they were, and later valid requests give what they gave before.',
     ['inputs', 'histories'], 'all operations that check what they are given, and sequences of refused and valid requests',
     'Tests look at the error of one request at a time, not at what it leaves.', ['DRecPy/Evaluation/Splits/leave_k_out.py', E + 'Processes/ranking_evaluation.py', 'DRecPy/Recommender/recommender_abc.py', 'DRecPy/Sampler/list_sampler.py', ABC, 'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py'],
     [('checks of what is given', 'first lines of the public operations')],
     'runtime monitoring: sequences of invalid requests on live objects, observing the error and comparing the state of everything involved with a reference',
     'Requests come from a table of documented limits; any error counts as a refusal.',
     'A case is a sequence of requests on one generated input; non-trivial if it was new.', [DOM])
