"""How each property is decided: for DESIGN.md."""
HOW = {
 'P01': 'Runs each list scheduler (real `schedule_with_cache`) on a symbolic project; oracle: for every dependency edge of the graph, finish + lag <= start, recomputed from the edges.',
 'P02': 'As P01; oracle: at the start of every work, the sum of the workers of all works running then is at most what the contractor has (sum over symbolic overlaps), over both projects on one timeline.',
 'P03': 'As P01; oracle: set of ids, start >= project start, duration equal to what the (arbitrary) estimator answers for the returned team.',
 'P04': 'As P01 with symbolic requirement ranges and staffs; oracle: one contractor per work, counts within min..max and within what it owns; feasibility is assumed as a formula, and any exception is a violation.',
 'P05': 'As P01 on chain shapes; oracle: order of links, same contractor, same counts.',
 'P06': 'As P01 with terms given for an arbitrary subset of works; oracle: each given term shows in the schedule, which is valid otherwise.',
 'P07': 'Decodes an arbitrary correct chromosome with the real serial and parallel generation schemes; oracle: validity as P01–P05 with capacities replaced by the borders of the chromosome, teams and contractors equal to the genes (or to the given terms).',
 'P08': 'Calls the real operators of the toolbox on arbitrary admissible parents with a random source whose every answer is an input; oracle: a predicate of admissibility written from scratch, equality of parents before/after, the real `validate` has to agree with the predicate. `moves` asks for existence of a reaching random outcome (with fixed seeds as witnesses), so it can only fail if a reachable order is not found within the witnesses listed; it was stable over all refactorings tried.',
 'P09': 'Calls each prioritisation and the priority correction on all graphs; oracle: permutation of heads, dependencies of whole chains, groups; corrected priorities compared with the least fixpoint computed independently.',
 'P10': 'Builds schedules from arbitrary scheduled works; oracle: rows, order, execution time, merged stages recomputed from the input.',
 'P11': 'Compares acceptance with a validity predicate over arbitrary (also broken) schedules: an equivalence, so both directions are decided.',
 'P12': 'Every operator of Time against clamped integer arithmetic.',
 'P13': 'Arbitrary operation sequences against list models.',
 'P14': 'Sums of the split times, with `int(a*b)` on floats modelled exactly.',
 'P15': 'Restructures every graph; oracle: every dependency of the given graph is implied by the constraints of the new one (z3 shows that no assignment of start times to the new works obeys the new graph and breaks an old dependency), amounts add up.',
 'P16': 'Compares the edited graph with an independently computed one: works, attributes, edges with types and lags.',
 'P17': 'Fieldwise equality of loaded/copied objects and of the dump before/after, all fields symbolic.',
 'P18': 'Compares answers of nodes and graph with those derived from the given edge list.',
 'P19': 'Runs the real manager and agents over real schedulers; oracle over the scheduled blocks, offers recomputed on copies of the timelines.',
 'P20': 'Acceptance of arbitrary chromosomes against a predicate (equivalence); evaluation against fitness values recomputed from the decoded schedule; conversion of real schedules and decoding back.',
 'P21': 'Compares returned paths and orders with longest paths computed as symbolic maxima over all paths.',
 'P22': 'Runs the searches over a time function whose every value is an input.',
 'P23': 'Runs the real main loop of the genetic search (deap toolbox included) with a fitness whose every value is an input and arbitrary correct offspring; oracle over all evaluated values, returned schedules and the last population.',
 'P24': 'Runs real pipelines from input to finished project; oracle: validity of the raw schedule as P01-P05 on the restructured graph, and on the delivered plan every dependency of the given graph, terms and start; for AUTO the schedules of both modes are recorded and compared.',
 'P25': 'Runs the default estimator with symbolic volumes and arbitrary teams and random answers (quotients by concrete floats are modelled exactly), generators with arbitrary random answers; oracle: rational arithmetic written from the documented formula with a relative slack of 1e-9 for rounding.',
 'P26': 'Runs the deadline scheduler and the genetic scheduler as a whole (only LFT inside of it replaced by one that chooses arbitrarily); oracle: validity as P01-P05, terms as P06, and the makespan of the largest/smallest teams computed by separate real runs.',
 'P27': 'Runs the list schedulers and decoders with arbitrary statuses and symbolic costs of changes, and the record of a zone itself with an arbitrary sequence of works; oracle: from the recorded changes alone, for each work there is a source of its status (the initial status or one change) with every other change before it or after the work.',
 'P28': 'Builds the landscape for every small transport graph with symbolic lengths, and asks for routes over every set of allowed roads; oracle: the shortest distance by explicit enumeration of simple paths as a symbolic minimum.',
 'P29': 'Asks the record of supplies for works at arbitrary moments and books what it finds, and runs the schedulers and decoders with symbolic stocks, capacities and needs; oracle: an audit of stock, storages, vehicles and roads from the booked deliveries alone.',
 'P30': 'Runs both backends (the pool of processes replaced by one that runs its actions in this process) and the hybrid search, with arbitrary random permutations, kinds of individuals and fitness values; oracle: correctness of a chromosome as in P20, the value of the decoded plan, the least value seen.',
 'P31': 'Runs the loader of tables on symbolic sets of links, counts, numbers and days and on every choice of columns; oracle: the listed links, simple cycles of small graphs enumerated independently, and relations of intervals written from the meaning of the kinds of links.',
 'P32': 'Runs the figures and the data preparation of the charts on schedules with symbolic teams and forked times; oracle: sums over the works running at each moment or day and the dates computed from the record of the schedule.',
}
