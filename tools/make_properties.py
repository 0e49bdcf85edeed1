import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
                 "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})
I="include/distributions/"
M=lambda m:I+"models/%s.hpp"%m
p("C01","Discrete groups hold exactly the multiset of their values",
 "After any sequence of creations, additions, repeated additions and removals, the sufficient statistics reported by a Beta-Bernoulli, Dirichlet-Discrete, Dirichlet-Process-Discrete, Gamma-Poisson or Beta-Negative-Binomial group are those of the multiset of values it holds. They do not depend on the order of the operations, and a group from which everything was removed equals a fresh one.",
 ["histories","inputs"],"every history of add / add-repeated / remove / re-init, every value of the model's domain, every dimension up to 256, all implementations (C++, lp, hp, dbg)",
 "Tests add and remove one short example list per model and compare with a fresh group; they never interleave repeats, drains and re-initialisation, nor large counts and values near table limits.",
 [M(m) for m in "bb dd dpd gp bnb".split()]+[I+"sparse.hpp","distributions/dbg/models/","distributions/hp/models/","distributions/lp/models/"],
 [("Group::add_value/add_repeated_value/remove_value","include/distributions/models/*.hpp")],
 [("heads/tails, counts, count_sum, sum, log_prod","sufficient statistics","Group structs")],["Group protobuf_dump / dump()"])
p("C02","Normal-model groups hold the moments of their values",
 "After any sequence of creations, additions, repeated additions and removals, a Normal-Inverse-Chi-Squared or Normal-Inverse-Wishart group reports the count, mean and scatter (sum of values and of outer products) of the multiset of values it holds, up to floating-point rounding. A univariate group of one value has exactly no scatter, and removing everything returns the group to the empty state, however large the values that were in it.",
 ["histories","inputs"],"every history of add / add-repeated / remove / re-init, any finite values, dimensions 1..5 for the multivariate model, all implementations",
 "Tests compare one short add/remove list with loose tolerances and never mix repeated additions into a nonempty group or drain and reuse one.",
 [M("nich"),M("niw"),"distributions/dbg/models/nich.py","distributions/dbg/models/niw.py","distributions/hp/models/nich.pyx"],
 [("Welford update and downdate","include/distributions/models/nich.hpp"),("rank-one updates","include/distributions/models/niw.hpp")],
 [("mean, count_times_variance; sum_x, sum_xxT","moments","Group structs")],["Group dump"])
p("C03","Merging groups is multiset union",
 "Merging a group into another makes the destination hold the union of both multisets and leaves the source unchanged, including when either side is empty; everything computed from the merged group (statistics, value scores, data score, later additions and removals) is that of a group into which all values were added one by one.",
 ["histories","inputs"],"every pair of group histories, chains of merges, merges followed by further operations, all models and implementations",
 "The tests merge two groups once and compare dumped statistics; cached quantities that are not dumped, empty operands and operations after a merge are not exercised.",
 [M(m) for m in "bb dd dpd gp bnb nich niw".split()]+[I+"sparse.hpp"],[("Group::merge","include/distributions/models/*.hpp"),("SparseCounter::merge","include/distributions/sparse.hpp")],
 [("cached totals","counts derived from statistics but not serialised","Group structs")],["score_value after merge"])
p("C04","Discrete models score values by the exact posterior predictive",
 "For every discrete model, hyperparameters, data held by the group and value, scoring the value returns the log of the conjugate posterior predictive probability, both directly and through a prepared scorer; these probabilities sum to one over the value domain, including the not-yet-seen value of the Dirichlet-Process model.",
 ["inputs","histories"],"every valid hyperparameter, every reachable group and every value, dimension up to 256, all implementations",
 "The tests check consistency of scores with each other on a few examples; a law that is consistently wrong, or wrong only for some dimension, count or hyperparameter range, passes.",
 [M(m) for m in "bb dd dpd gp bnb".split()],[("Scorer::init/eval, Group::score_value","include/distributions/models/*.hpp")],(),["score_value","Scorer.eval"])
p("C05","Normal models score values by the exact posterior predictive",
 "For the normal models, every hyperparameter, group and value, scoring the value returns the log density of the Student-t (univariate or multivariate) posterior predictive, within the documented accuracy of the fast approximations.",
 ["inputs","histories"],"every valid hyperparameter, every reachable group, any finite value, dimensions 1..5 and both fixed and dynamic size C++ types, all implementations",
 "Tests compare flavours on a few examples and integrate densities by sampling with wide tolerances.",
 [M("nich"),M("niw"),I+"random.hpp"],[("NormalInverseChiSq Scorer","include/distributions/models/nich.hpp"),("score_mv_student_t","include/distributions/random.hpp")],(),["score_value"])
p("C06","The data score of a group is its marginal likelihood",
 "Scoring the data of a group returns the log marginal likelihood of the multiset it holds; it therefore equals the sum of the sequential predictive scores in any order and is zero for an empty group.",
 ["inputs","histories"],"every hyperparameter and reachable group, every order of arrival, all models and implementations",
 "Tests compare the chain rule on one short example order per model with a loose tolerance.",
 [M(m) for m in "bb dd dpd gp bnb nich niw".split()],[("Group::score_data","include/distributions/models/*.hpp")],(),["score_data"])
p("C07","Updating hyperparameters by a group gives the conjugate posterior",
 "For models with a conjugate update (Gamma-Poisson, Beta-Negative-Binomial, Normal-Inverse-Chi-Squared, Normal-Inverse-Wishart), combining hyperparameters with a group returns exactly the posterior hyperparameters given the values it holds, and combining with an empty group returns the prior.",
 ["inputs","histories"],"every hyperparameter and reachable group",
 "The tests for the normal models check one worked example and the others only indirectly.",
 [M(m) for m in "gp bnb nich niw".split()],[("Shared::plus_group","include/distributions/models/*.hpp")],(),["plus_group"])
p("C08","Vectorized mixture scores always agree with the groups",
 "After any history of group additions, group removals (with the documented move of the last group into the vacated position), value additions and value removals, a mixture's score for a value against each group, one at a time or as a vector, equals the posterior predictive of the multiset held by that group, and vector scoring adds exactly that to the scores passed in.",
 ["histories","inputs"],"every interleaving of the four updates and re-initialisation, 0 to 70 groups (all vector-remainder sizes), every position removed, all models, small and fast mixtures, C++ and lp",
 "The tests run one fixed add/remove pattern on a handful of groups; stale per-group caches after particular orders, or at vector-length boundaries, are not reached.",
 [I+"mixture.hpp"]+[M(m) for m in "bb dd dpd gp bnb nich niw".split()]+["src/models/gp.cc","src/models/nich.cc","distributions/lp/models/"],
 [("MixtureSlave / *MixtureValueScorer","include/distributions/mixture.hpp, include/distributions/models/*.hpp"),("vectorized evaluation","src/models/*.cc")],
 [("cached score vectors","per-group terms kept in step with the groups","ValueScorer classes")],["score_value","score_value_group"])
p("C09","Mixture data scores are sums of marginal likelihoods",
 "A mixture's data score under given hyperparameters equals the sum over its groups of their marginal likelihoods, and scoring a grid of hyperparameters returns, for each grid point independently of its position and neighbours, the data score under that point.",
 ["histories","inputs"],"every mixture history, 0 to 70 groups including empty ones, grids of any length and order, all models",
 "The tests score one fixed grid against three or so groups.",
 [I+"mixture.hpp"]+[M(m) for m in "bb dd dpd gp bnb nich niw".split()],[("*MixtureDataScorer::score_data/score_data_grid","include/distributions/models/*.hpp")],(),["score_data","score_data_grid"])
p("C10","The mixture driver keeps counts and empty groups exact",
 "After any history of value additions and removals (single or batched), the clustering driver's per-group counts, sample size and set of empty groups describe the same partition, the number of empty groups never changes, and the returned flags tell precisely when a group was created or removed and moved. Operations outside the contract are refused without changing the state when checks are on.",
 ["histories","inputs"],"every history from any initial count vector with at least one empty group, batched counts, first/last/middle positions, one or many empty groups, both clustering models, driver and cached variants, C++ and lp",
 "Tests run one fixed pattern with a single empty group; removal of the last position, several empty groups and batched updates are barely reached.",
 [I+"mixture.hpp",I+"clustering.hpp","distributions/lp/clustering.pyx"],[("MixtureDriver::add_value/remove_value/init","include/distributions/mixture.hpp")],
 [("counts_, empty_groupids_, sample_size_","partition state","MixtureDriver")],["counts()","empty_groupids()","sample_size()"])
p("C11","Global group ids are unique, stable and translate both ways",
 "When a driver, its component mixtures and an id tracker are updated together as documented, every group keeps one global id for its whole life, ids are never reused, packed positions and global ids translate to each other exactly, and counts, component groups and ids always describe the same group.",
 ["histories"],"every joint history of value additions and removals, any number of empty groups, any removal position",
 "The tests keep one mixture with a fixed pattern and check only a round trip of ids.",
 [I+"mixture.hpp","distributions/lp/mixture.pyx"],[("MixtureIdTracker","include/distributions/mixture.hpp"),("packed removal","include/distributions/mixture.hpp, include/distributions/vector.hpp")],
 [("packed_to_global, global_to_packed, global_size","id maps","MixtureIdTracker")],["packed_to_global","global_to_packed"])
p("C12","Pitman-Yor scores are the Pitman-Yor law",
 "Adding, removing and partition scores under the Pitman-Yor model are the logs of the exact seating probabilities: add scores over all groups (empty ones together) sum to one, a removal undoes the addition that precedes it, partition scores are the chain of seating probabilities in any order and ignore empty groups, and the cached mixture scores equal the uncached ones after any history.",
 ["inputs","histories"],"every alpha>0 and 0<=d<1, every count vector and number of empty groups, every seating order and mixture history, C++, lp",
 "Tests compare sampled frequencies with scores on sizes up to five or so and never compare cached with uncached scores after long histories.",
 [I+"clustering.hpp","src/clustering.cc","distributions/lp/clustering.pyx"],[("PitmanYor::score_*","include/distributions/clustering.hpp"),("CachedMixture","include/distributions/clustering.hpp"),("score_counts","src/clustering.cc")],
 [("shifted_scores_","cached per-group seating scores","PitmanYor::CachedMixture")],["score_add_value","score_value","score_counts"])
p("C13","Low-Entropy scores follow the documented law",
 "Low-Entropy add, remove and partition scores follow the documented entropy law with its stated approximations: on complete data sets partition scores are the exactly normalised entropy prior, a removal undoes the addition that precedes it, empty groups do not influence partition scores, and the partition function is exact up to 47 and within its stated accuracy above.",
 ["inputs","histories"],"every dataset size, sample size, count vector, number of empty groups, C++, lp and dbg",
 "Tests use data sets of a handful of points and compare with sampled frequencies within wide tolerances; empty groups, removal scores and large groups are not compared with the law.",
 [I+"clustering.hpp","src/clustering.cc","distributions/dbg/clustering.py","distributions/lp/clustering.pyx"],[("LowEntropy::score_*","include/distributions/clustering.hpp"),("log_partition_function","src/clustering.cc")],(),["score_add_value","score_remove_value","score_counts","log_partition_function"])
p("C14","Sampled partitions are valid and follow the prior",
 "Sampling an assignment vector from a clustering prior returns the requested number of ids, numbered contiguously from zero in order of first appearance, and for every random source each id is the one the seating law assigns to the random number drawn; counting assignments returns the size of each group.",
 ["inputs","histories"],"every size, parameters and random stream, both models",
 "Tests check frequencies on very small sizes with statistical tolerances.",
 ["src/clustering.cc",I+"clustering.hpp",I+"random.hpp","distributions/dbg/clustering.py"],[("sample_assignments, count_assignments","src/clustering.cc")],(),["sample_assignments","count_assignments"])
p("C15","The Dirichlet-process stick is shared out consistently",
 "After any history of value additions, removals and realisations on Dirichlet-Process-Discrete hyperparameters, the known values are exactly those with outstanding references, all weights including the remaining one are between zero and one and sum to one, every weight is unaffected while its value stays referenced, and dropping the last reference returns its weight to the remainder.",
 ["histories","inputs"],"every history of add / remove / realize over any keys and starting sticks, every random stream",
 "Tests realize an example once; they never interleave removals with re-additions.",
 [M("dpd"),I+"sparse.hpp","distributions/lp/models/dpd.pyx"],[("Shared::add_value/remove_value/realize","include/distributions/models/dpd.hpp")],[("betas, counts, beta0","stick","Shared")],["Shared dump"])
p("C16","Sparse and packed containers behave as the maps they stand for",
 "For every sequence of calls, the sparse map, the sparse counter (counts, total, negative counts, merge, rename, no stored zeros) and the packed vector (append, remove-by-moving-last) behave as the mathematical map, integer-valued multiset and sequence, and calls that violate a precondition are refused without effect when checks are on.",
 ["histories","inputs"],"every call sequence over any 32-bit keys and counts",
 "The repository has no direct tests of these containers.",
 [I+"sparse.hpp",I+"vector.hpp",I+"trivial_hash.hpp"],[("Sparse_, SparseCounter","include/distributions/sparse.hpp"),("Packed_","include/distributions/vector.hpp")],[("map_, total_, data_","container state","include/distributions/sparse.hpp, vector.hpp")],["contains/get/get_count/get_total/iteration"])
p("C17","Discrete samplers invert the cumulative distribution",
 "Every sampler of a discrete choice (from probabilities, likelihoods or scores, of a coin, from a Dirichlet model) partitions the unit interval of its random number into one piece per outcome of exactly the outcome's probability: outcomes of zero probability are never returned, the result is always in range, and the log-probability reported with a sample is that of the outcome.",
 ["inputs"],"every weight vector (including zeros, one entry, unnormalised, -inf scores) and every value of the uniform random number",
 "Tests compare empirical frequencies on a few vectors; zero-probability edges and extreme uniforms are never drawn.",
 [I+"random.hpp","src/random.cc","distributions/dbg/random.py","distributions/lp/random.pyx"],[("sample_discrete, sample_from_likelihoods, sample_from_scores*, sample_prob_from_scores, score_from_scores","include/distributions/random.hpp, src/random.cc")],(),["returned index"])
p("C18","Model samplers draw from the posterior predictive",
 "Values sampled from a group, from a prepared sampler, or from a fresh set of group parameters are distributed as the model's posterior given the values held (hence as the score says), always lie in the model's domain, and never occur where the score says they are impossible.",
 ["inputs","histories"],"every model, hyperparameters and group",
 "Tests use goodness-of-fit on a couple of example hyperparameters and mostly on empty or tiny groups.",
 [M(m) for m in "bb dd dpd gp bnb nich niw".split()]+[I+"random.hpp"],[("Sampler::init/eval, Group::sample_value","include/distributions/models/*.hpp")],(),["sample_value","Sampler.eval"])
p("C19","Saving and loading preserves hyperparameters, groups and clusterings",
 "Dumping hyperparameters, a group or a clustering model and loading it back (through dictionaries or protobuf bytes, into a fresh object or over a used one) gives an object that behaves identically from then on: same statistics, scores and response to further updates.",
 ["histories","inputs"],"every model, every reachable state, both formats, loading over used objects, every implementation",
 "Tests compare dump(load(x)) with x on examples; quantities not dumped, loading over a used object and behaviour after loading are not compared.",
 [M(m) for m in "bb dd dpd gp bnb nich niw".split()]+[I+"clustering.hpp","distributions/mixins.py","distributions/lp/models/","distributions/lp/clustering.pyx"],[("protobuf_load/protobuf_dump, load/dump","include/distributions/models/*.hpp, distributions/**/models")],(),["dump, scores after load"])
p("C20","Record streams return exactly what was written",
 "Reading a protobuf or JSON record stream (plain or compressed, including appends) returns exactly the records written in order, for any record contents and sizes; a stream cut off inside a record is never reported as complete data with a damaged record in it.",
 ["inputs","crash_points"],"every list of byte records (empty and large ones too), every way of appending, every truncation point",
 "Tests write one short list and read it back; truncation is not tested.",
 ["distributions/io/stream.py"],[("protobuf_stream_*, json_stream_*","distributions/io/stream.py")],(),["records read"])
p("C21","All implementations of a model agree",
 "On the same hyperparameters and the same history of operations, the C++, low-precision, high-precision and debug implementations of a model report the same statistics, value scores and data scores within single-precision accuracy.",
 ["histories","inputs"],"every history and hyperparameter accepted by all implementations",
 "The flavour tests compare one example list per model.",
 ["distributions/dbg/models/","distributions/hp/models/","distributions/lp/models/",I+"models/"],[("parallel implementations","distributions/*/models")],(),["dump, score_value, score_data"])
p("C22","Special functions and tables are accurate over their whole domain",
 "The fast logarithm, exponential, log-gamma, log-beta, log-factorial and Stirling-number functions, in every implementation, are within their stated accuracy of the exact mathematical functions everywhere on their domain, including at table edges and switch-over points.",
 ["inputs"],"every representable argument of the domain",
 "Tests sample a few hundred random or small arguments.",
 [I+"special.hpp","src/special.cc","distributions/dbg/special.py","distributions/hp/special.pyx"],[("lookup tables and polynomial approximations","src/special.cc")],(),["return value"])
p("C23","Vector arithmetic is elementwise arithmetic at every length",
 "Every vector operation (fill, add, scale, multiply, subtract, extremes, dot, exp, log, log-gamma and friends) computes the elementwise or reduced mathematical result for every length and alignment it accepts, touches nothing outside the given range, and log-sum-exp and score normalisation are exact up to rounding for any scores, including very large, very small and -inf ones.",
 ["inputs"],"every length (all remainders modulo the vector width), contents and offset",
 "Vector operations have no direct tests except for a few indirect ones.",
 ["src/vector_math.cc",I+"vector_math.hpp","src/random.cc",I+"aligned_allocator.hpp"],[("vector_*","src/vector_math.cc"),("log_sum_exp, scores_to_likelihoods","src/random.cc")],(),["output arrays"])
p("C24","Given the seed, results are reproducible and scoring is pure",
 "Running the same operations from the same seed gives bit-identical results and leaves the random source in the same state, independently of what other objects did before with other random sources; scoring never changes the state of what it scores.",
 ["histories","inputs"],"every interleaving of sampling and scoring calls on several random sources",
 "Tests seed once and compare one call.",
 [I+"random.hpp",I+"random_fwd.hpp",I+"models/","distributions/global_rng.pyx","distributions/rng_cc.pyx"],[("explicit rng_t arguments","include/distributions/*.hpp")],(),["outputs, rng state"])
p("C25","Shared tables and scoring are safe under concurrency",
 "Any number of threads may score, sample and query the shared mathematical tables at the same time on their own objects, and may score values under one object that nobody changes: every result equals the single-threaded one and no data race occurs, whichever thread first fills or grows a shared table.",
 ["schedules"],"every interleaving of concurrent queries, including first use and table growth",
 "The tests are single-threaded.",
 ["src/special.cc",I+"special.hpp"],[("mutex around the growing Stirling table","src/special.cc")],[("log_stirling1_row cache","shared growing table","src/special.cc")],["return values, race reports"])
p("C26","Urn sampling is uniform over items and ordered pairs",
 "Sampling from an urn returns each item with equal probability, sampling a pair returns each ordered pair of two different positions with equal probability, and urns that are too small are refused.",
 ["inputs"],"every urn size and random stream",
 "The urn samplers have no tests.",
 [I+"random.hpp"],[("sample_from_urn, sample_pair_from_urn","include/distributions/random.hpp")],(),["returned items"])
p("C27","Goodness-of-fit verdicts mean what they claim",
 "The p-value returned for discrete samples is that of Pearson's chi-squared test (what lies beyond a truncation counting as one more bin, and an impossible outcome giving zero), so that samples of the tested law itself fall below a level alpha about a fraction alpha of the time, whatever the number of bins; the tests of uniform and of continuous samples reduce to it by equal bins of the transformed samples; binning partitions the sorted sample into equally full consecutive bins, histograms count every sample once, and the empirical divergence is exact.",
 ["inputs"],"every probability vector, count vector, sample and truncation for which the approximation applies",
 "The tests feed one random example per dimension and only check that good fits are not rejected and bad ones are.",
 ["distributions/util.py"],[("multinomial_goodness_of_fit, discrete_goodness_of_fit, unif01_goodness_of_fit, density_goodness_of_fit, bin_samples, histogram, score_to_empirical_kl","distributions/util.py")],(),["returned p-values, bins, counts"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
