MC = "model_checking"
B = " Bounded: nothing outside the enumerated spaces is claimed."
NOTES = {
 "C01": ("explicit-state exploration of all small logs and query vectors on the real code against a reference model", MC,
         "Every log up to the stated size, in every order, is replayed on the real class and compared with an independent model." + B),
 "C02": ("explicit-state exploration of all small data sets and spend/impression lattices on the real code", MC,
         "Every small multi-publisher data set with every spend and impression vector of the lattice is counted directly and compared." + B),
 "C03": ("exhaustive operation histories of the data-design store against a reference store, local and emulated cloud", MC,
         "All add/reopen/read/copy histories up to the depth bound are replayed on the real store; the cloud is cloudpathlib's local emulation." + B),
 "C04": ("exhaustive enumeration of reach lists and user-count multisets on the real code", MC,
         "All small k+ lists and user-count multisets are compared with direct counting." + B),
 "C05": ("exhaustive exploration of optimizer outcomes, training points and query histories on the real models", MC,
         "The numeric optimizer is replaced by every outcome of a grid inside its bounds (plus a few real fits), and the laws are checked at every query of a grid in every order." + B),
 "C06": ("exhaustive enumeration of small monotone curves, maxima and quantiles on the real search", MC,
         "Every non-decreasing curve of the bounded domain and jumps around every power of two, with every dyadic quantile, against brute force." + B),
 "C07": ("exhaustive exploration of training sets and query lattices on the real surfaces", MC,
         "Every level assignment of the training points for 2 to 4 publishers, with the constraints and bounds checked at every query of a lattice." + B),
 "C08": ("explicit-state exploration of all event histories against an exact sweep model", MC,
         "All histories of events over a grid of cyclic intervals, checked on every elementary interval of the circle." + B),
 "C09": ("exhaustive request histories on the real simulator with a recording noise source, budgets audited per request", MC,
         "Every request of a grid and every pair or triple of a sub-grid, and every strategy fit, is audited; the absent estimator package is a stand-in." + B),
 "C10": ("exhaustive enumeration of noise outcomes and spend vectors on the real simulator", MC,
         "Every estimator outcome of an adversarial alphabet, every spend and campaign vector; the estimator itself is a stand-in." + B),
 "C11": ("exhaustive enumeration of membership patterns, sampling and noise outcomes on the real simulator", MC,
         "Every pattern of up to four users over up to four publishers, with every sample and noise outcome of small alphabets." + B),
 "C12": ("exhaustive crash-point and torn-write enumeration with recovery on the real driver", MC,
         "Every filesystem operation boundary, every prefix of every write and pairs of crashes, recovered with the real code and compared with an uninterrupted run." + B),
 "C13": ("exhaustive schedules: all execution orders, subsets and interleavings of worker filesystem operations under a controlled scheduler", MC,
         "All orders and pre-computed subsets; all interleavings of two real forked workers' filesystem operations, bounded preemptions for larger ones; apache_beam is a stand-in." + B),
 "C14": ("exhaustive fault enumeration at every modeling call on the real driver", MC,
         "Every subset of failing trials at every failure point and a failure at every single call of every phase." + B),
 "C15": ("exhaustive enumeration of configuration pairs and adaptation histories on the real descriptors", MC,
         "All values of all pairs of fields and the full two-valued product: names are injective on the explored space." + B),
 "C16": ("exhaustive enumeration of generator configurations, random scripts and histories on the real generators", MC,
         "All configurations around the documented thresholds and all scripts of extreme draws." + B),
 "C17": ("exhaustive enumeration of random outcomes (draw vectors and permutations) on the real generators", MC,
         "Every draw vector up to four users and every permutation for short logs, through a scripted random source." + B),
 "C18": ("exhaustive enumeration of label assignments over all small publisher lists on the real code", MC,
         "Every assignment of labels from a small universe; the overlap generators of the absent package are stand-ins." + B),
 "C19": ("exhaustive enumeration of configurations and generation histories, byte comparison of the results", MC,
         "Every configuration of a product and all construction/call orders of two or three designs with disturbed global random state." + B),
 "C20": ("exhaustive operation histories on both real wrappers in lockstep with a reference filesystem", MC,
         "All histories of mutating operations up to depth 3-4 with every query compared; the cloud is cloudpathlib's local emulation." + B),
 "C21": ("exhaustive enumeration of small lists of reach points against exact rational definitions", MC,
         "All lists of up to three pairs over small alphabets and all frequency ranges, compared with exact arithmetic." + B),
 "C22": ("exhaustive enumeration of campaigns and measurement outcomes with recording models on the real strategies", MC,
         "Every publisher count, campaign fraction vector and measurement outcome of the grid; training data received by recording models is compared." + B),
 "C23": ("exhaustive enumeration of every trial of the shipped designs over seeds, histories and adaptations", MC,
         "The whole list of trials of each shipped design is compared with the product (or Latin hypercube shares) of its declared levels." + B),
 "C24": ("exhaustive enumeration of option combinations on the real command lines against the Python interface", MC,
         "Every combination of a product of options; apache_beam is a stand-in and the cloud is cloudpathlib's local emulation." + B),
}
NOT_APPLICABLE = {}
