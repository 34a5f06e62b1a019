GEN = 'sampo/scheduler/generic.py'
JIT = 'sampo/scheduler/timeline/just_in_time_timeline.py'
MOM = 'sampo/scheduler/timeline/momentum_timeline.py'
GRAPH = 'sampo/schemas/graph.py'
LFT = 'sampo/scheduler/lft/base.py'
SPEC = 'sampo/schemas/schedule_spec.py'
SCHED = 'sampo/schemas/schedule.py'
CONV = 'sampo/scheduler/genetic/converter.py'

PROPS = [
    dict(id='P01', title='No work starts before its predecessors are finished (plus lag)',
         statement='In every schedule produced by any of the list schedulers (both HEFT variants, topological, LFT), a work '
                   'starts no earlier than the finish of each of its finish-start predecessors plus the lag of that '
                   'dependency. This holds for plain, lagged and inseparable dependencies, for chains with outside '
                   'predecessors, and for a second project planned on an already used timeline.',
         over=['inputs', 'schedules'],
         q='every work graph, lag, duration, staffing and contractor set (within the stated sizes), each scheduler',
         why='tests check a few generated graphs with the built-in estimator; ties, zero durations and lags equal to '
             'gaps are never hit on purpose',
         files=[GEN, JIT, MOM, GRAPH], mech=[('earliest start from predecessors', GRAPH + ':GraphNode.min_start_time'),
                                             ('slot search', MOM + ':find_min_start_time_with_additional'),
                                             ('end-of-stack search', JIT + ':find_min_start_time_with_additional')],
         obs=['start/finish times of the works of the returned schedule']),
    dict(id='P02', title='Contractors never lend more workers than they have',
         statement='At every moment of every schedule produced by any of the list schedulers, the workers of one kind that '
                   'all running works take from one contractor do not exceed what this contractor has. This also holds '
                   'across two projects planned one after the other on the same timeline.',
         over=['inputs', 'schedules'],
         q='every graph, duration, requirement range and contractor capacity within the stated sizes, each scheduler',
         why='over-allocation shows only for particular orderings and coincidences of starts and finishes',
         files=[JIT, MOM, GEN], mech=[('occupation of time slots', MOM + ':update_timeline'),
                                      ('free-since stacks', JIT + ':update_timeline')],
         obs=['times and teams of the works of the returned schedules']),
    dict(id='P03', title='Every work is scheduled exactly once, in time, for its estimated duration',
         statement='Every schedule produced by any of the list schedulers contains each work of the graph exactly once and '
                   'nothing else; no work starts before the assigned project start. Each work lasts exactly as long as '
                   'the estimator says for the team it was given, and service works take no time and no workers.',
         over=['inputs', 'schedules'], q='every graph, duration function and project start within the stated sizes',
         why='tests compare totals for a handful of graphs; the duration-by-team function is a fixed formula there',
         files=[GEN, JIT, MOM, LFT], mech=[('placing a work and its chain', MOM + ':_schedule_with_inseparables'),
                                           ('placing a work and its chain', JIT + ':_schedule_with_inseparables'),
                                           ('main loop', GEN + ':build_scheduler')],
         obs=['works of the returned schedule']),
    dict(id='P04', title='Teams match the requirements and come from one contractor',
         statement='In every schedule produced by any of the list schedulers each work is staffed by exactly one contractor, '
                   'which owns at least the workers it lends, and for every required kind the number of workers lies '
                   'between the minimum and the maximum of the requirement. If some contractor can satisfy every work, '
                   'scheduling succeeds.',
         over=['inputs', 'configurations'], q='every requirement range, contractor staffing and duration-by-team function',
         why='requirement ranges and staff sizes that just meet or just miss each other are rare in generated data',
         files=[GEN, 'sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/resource/full_scan.py',
                'sampo/scheduler/resource/coordinate_descent.py', 'sampo/scheduler/resource/average_req.py', LFT],
         mech=[('team borders', 'sampo/scheduler/utils/multi_contractor.py:get_worker_borders'),
               ('team size search', 'sampo/utilities/base_opt.py')], obs=['teams in the returned schedule']),
    dict(id='P05', title='Inseparable chains run in order with one team',
         statement='In every schedule produced by any of the list schedulers the works of an inseparable chain run one after '
                   'another in chain order, are done by the same contractor and by the same team. This also holds if '
                   'inner links of the chain have further predecessors or successors outside of it.',
         over=['inputs', 'schedules'], q='chains of up to 3 links with outside links, any durations and lags',
         why='tests only contain chains produced by one generator',
         files=[JIT, MOM, GRAPH], mech=[('chain handling', GRAPH + ':GraphNode.get_inseparable_chain'),
                                        ('chain placement', JIT + ':_schedule_with_inseparables')],
         obs=['works of the returned schedule']),
    dict(id='P06', title='Terms given for works are obeyed',
         statement='If allowed contractors, a full or partial team, an execution time or exclusive use of its kinds of '
                   'workers are given for a work, every list scheduler returns a schedule which obeys them: an allowed '
                   'contractor, exactly the given counts, exactly the given total time for the work with its chain, no '
                   'other work using workers of those kinds of the same contractor in parallel. The schedule still '
                   'respects dependencies and capacities.',
         over=['inputs', 'configurations'], q='every subset of works with terms, every satisfiable term value, each scheduler',
         why='terms are combined with only one or two graphs in tests; partial teams and exclusive use are not tested',
         files=[GEN, SPEC, MOM, JIT, 'sampo/scheduler/base.py', LFT],
         mech=[('applying team terms', 'sampo/scheduler/base.py:optimize_resources_using_spec'),
               ('contractor filter', SPEC + ':WorkSpec.filter_contractors'),
               ('chain time split', 'sampo/scheduler/timeline/utils.py')], obs=['works of the returned schedule']),
    dict(id='P07', title='Every admissible chromosome decodes into a valid schedule',
         statement='Decoding any chromosome of the genetic scheduler whose order respects the dependencies and whose '
                   'resource counts lie within requirements and borders gives a schedule with each work exactly once, '
                   'respecting dependencies, chains and the worker borders of the chromosome. Each work is done by the '
                   'contractor and the team its genes name; this holds for the serial and the parallel decoding.',
         over=['inputs', 'programs'], q='every order, resource genes, borders, durations within the stated sizes',
         why='tests decode only chromosomes that come from one scheduler run',
         files=[CONV, 'sampo/scheduler/genetic/utils.py', JIT, MOM],
         mech=[('serial decoding', CONV + ':serial_schedule_generation_scheme'),
               ('parallel decoding', CONV + ':parallel_schedule_generation_scheme'),
               ('index structures', 'sampo/scheduler/genetic/utils.py:prepare_optimized_data_structures')],
         obs=['decoded works']),
    dict(id='P08', title='Genetic operators keep chromosomes admissible',
         statement='Mutation and crossover of order, resources and borders, applied to admissible chromosomes, give '
                   'chromosomes that are again admissible: the order stays a permutation respecting dependencies and '
                   'priority groups, team counts stay within requirements and borders, borders stay between usage and '
                   'capacity. Parents are not changed unless asked for, the fast validity check accepts exactly the '
                   'admissible ones, and every order permitted can be reached.',
         over=['inputs', 'programs'], q='every admissible chromosome of the stated sizes and every random outcome',
         why='tests run the operators with a few seeds and check few of the conditions',
         files=['sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/utils.py'],
         mech=[('order operators', 'sampo/scheduler/genetic/operators.py:mutate_scheduling_order_core'),
               ('resource operators', 'sampo/scheduler/genetic/operators.py:mutate_resources'),
               ('validity', 'sampo/scheduler/genetic/operators.py:is_chromosome_correct')],
         obs=['chromosomes returned by the toolbox operators']),
    dict(id='P09', title='Work orders respect dependencies and priorities',
         statement='The order of works each list scheduler derives (HEFT ranks, topological with any shuffle, LFT, '
                   'randomized LFT) is a permutation of chain heads in which each work follows all its predecessors. '
                   'Priority correction makes no work less urgent than its successors allow, treats chains as a whole, '
                   'and works of a more urgent group come first.',
         over=['inputs', 'configurations'], q='every graph of the stated sizes, every duration, priority and shuffle outcome',
         why='ties and priorities combined with chains do not occur in test graphs',
         files=['sampo/utilities/priority.py', 'sampo/scheduler/heft/prioritization.py',
                'sampo/scheduler/topological/base.py', 'sampo/scheduler/lft/prioritization.py'],
         mech=[('priority propagation', 'sampo/utilities/priority.py'),
               ('ordering by rank', 'sampo/scheduler/heft/prioritization.py')], obs=['returned lists of nodes']),
    dict(id='P10', title='A schedule object represents the scheduled works faithfully',
         statement='A Schedule built from scheduled works holds each of them once with its times, team, contractor, volume and '
                   'cost; its rows are ordered by start, and execution time is the latest finish. Uniting the stages of '
                   'divided works gives one work per original one which spans its stages, and sums their volumes and costs; '
                   'the given schedule is not changed. The cost of a work is the cost of its team times its duration.',
         over=['inputs', 'schedules'], q='any times, teams and costs consistent with any graph of the stated sizes',
         why='ties between starts and particular overlaps decide about row order and merging',
         files=[SCHED, 'sampo/utilities/schedule.py', 'sampo/schemas/scheduled_work.py'],
         mech=[('table of works', SCHED + ':Schedule.from_scheduled_works'),
               ('merging of stages', 'sampo/utilities/schedule.py:fix_split_tasks')], obs=['data frame and works of the schedule']),
    dict(id='P11', title='Validation accepts exactly the valid schedules',
         statement='validate_schedule accepts a schedule that contains every work of the graph, starts no work before its '
                   'predecessors are finished, staffs every work within its requirements and uses never more workers than the '
                   'contractors have. It rejects every schedule which violates one of these conditions or uses a contractor '
                   'that was not allowed for the work.',
         over=['inputs', 'schedules'], q='every schedule (valid or not) of the stated sizes with arbitrary times and teams',
         why='rejection has to be shown for every kind of small violation, tests only have a few broken schedules',
         files=['sampo/utilities/validation.py'],
         mech=[('checks', 'sampo/utilities/validation.py:validate_schedule')], obs=['raised AssertionError or not']),
    dict(id='P12', title='Time is an integer that saturates at infinity',
         statement='Time values behave as integers that saturate at plus and minus infinity: sums, differences, products, '
                   'quotients and comparisons with times and plain numbers, on either side, agree with integer arithmetic; '
                   'fractions are cut; infinity is recognised; operands are not changed; equal times have equal hashes.',
         over=['inputs'], q='all integers up to twice infinity, half-integers for fractions',
         why='arithmetic near the saturation bound and with negative operands is not tested',
         files=['sampo/schemas/time.py'], mech=[('arithmetic', 'sampo/schemas/time.py:Time')], obs=['returned values']),
    dict(id='P13', title='Containers behave like the lists they model',
         statement='The linked list, the priority queue, the sorted list, the queue of delayed calls and the general timeline '
                   'the schedulers build on behave as plain (sorted) lists under any sequence of operations: nothing is lost, '
                   'repeated or reordered, removal while iterating continues with the following element, and the timeline '
                   'returns its events in order of time.',
         over=['inputs', 'histories'], q='every sequence of operations of the stated length with arbitrary values',
         why='removal of the last or only element, or ties, in the middle of a long sequence',
         files=['sampo/utilities/linked_list.py', 'sampo/utilities/priority_queue.py', 'sampo/schemas/sorted_list.py',
                'sampo/schemas/apply_queue.py', 'sampo/scheduler/timeline/general_timeline.py'],
         mech=[('iteration and removal', 'sampo/utilities/linked_list.py:Iterator.remove'),
               ('event order', 'sampo/scheduler/timeline/general_timeline.py')], obs=['contents after each operation']),
    dict(id='P14', title='Time given for a chain is split without loss',
         statement='When an execution time is given for an inseparable chain, the times of its links are non-negative '
                   'integers which sum exactly to the given time.',
         over=['inputs'], q='every given time and link durations, with exact floating point rounding',
         why='rounding errors show only for particular combinations of times',
         files=['sampo/scheduler/timeline/utils.py'],
         mech=[('proportional split', 'sampo/scheduler/timeline/utils.py:get_exec_times_from_assigned_time_for_chain')],
         obs=['returned mapping']),
    dict(id='P15', title='Graph restructuring keeps works and their constraints',
         statement='Restructuring a work graph gives a graph with finish-start and inseparable dependencies only. Stages of a '
                   'divided work form an inseparable chain whose volumes and required amounts sum up to those of the work. '
                   'Every schedule of the new graph obeys each dependency of the given graph, including start-start, '
                   'finish-finish and lagged ones, and the given graph is not changed.',
         over=['inputs', 'configurations'], q='every graph of the stated sizes over all edge types and lags, with and without lag '
         'optimization', why='combinations of several lagged dependencies of one work are not in the test graphs',
         files=['sampo/structurator/base.py'],
         mech=[('division into stages', 'sampo/structurator/base.py:split_node_into_stages'),
               ('dependencies of stages', 'sampo/structurator/base.py:fill_parents_to_new_nodes')], obs=['returned graph']),
    dict(id='P16', title='Editing a work graph keeps everything else',
         statement='Deleting a work removes it with its inseparable chain and keeps the order of all other works. Inserting a '
                   'work or a graph adds exactly the asked for works and dependencies. All other works keep their attributes '
                   'and dependencies with types and lags; ids stay or change as asked for; renumbering gives consecutive '
                   'numbers; the given graphs are not changed.',
         over=['inputs'], q='every graph of the stated sizes over all edge types, every edit position',
         why='tests edit one graph at one position and look only for the edited work',
         files=['sampo/structurator/delete_graph_node.py', 'sampo/structurator/insert_wu.py',
                'sampo/structurator/graph_insertion.py', 'sampo/structurator/prepare_wg_copy.py',
                'sampo/structurator/light_modifications.py'],
         mech=[('copy of a graph', 'sampo/structurator/prepare_wg_copy.py:prepare_work_graph_copy'),
               ('removal', 'sampo/structurator/delete_graph_node.py'), ('insertion', 'sampo/structurator/graph_insertion.py')],
         obs=['returned graph, given graph afterwards']),
    dict(id='P17', title='Objects survive dumping, loading and copying',
         statement='Work units, requirements, work graphs, contractors, resources, scheduled works, schedules and projects give '
                   'an equal object when dumped and loaded again (as dict or text), also repeatedly from the same dump, and '
                   'when deep-copied or passed between processes. Dumping and loading change neither the object nor the dump.',
         over=['inputs'], q='objects with arbitrary counts, times, costs, volumes and graphs of the stated sizes',
         why='tests round-trip a few objects with default field values',
         files=['sampo/schemas/serializable.py', 'sampo/schemas/works.py', GRAPH, SCHED, 'sampo/schemas/contractor.py',
                'sampo/schemas/scheduled_work.py', 'sampo/schemas/resources.py', 'sampo/schemas/requirements.py'],
         mech=[('field-wise dump and load', 'sampo/schemas/serializable.py:AutoJSONSerializable'),
               ('graph form', GRAPH + ':WorkGraph._serialize')], obs=['fields of the loaded objects']),
    dict(id='P18', title='A work graph represents the works it was built from',
         statement='A work graph holds each given work once, in topological order, between its service start and finish, which '
                   'are linked to exactly the works without predecessors or successors. Predecessors, successors, chains and '
                   'earliest starts asked from a node agree with the current edges of this graph, also after edges are added '
                   'and beside other graphs with equal ids; the frame of a graph shows the same.',
         over=['inputs', 'histories'], q='every graph of the stated sizes over all edge types, every order of the given works',
         why='caches go stale only after particular sequences of queries and changes',
         files=[GRAPH, 'sampo/scheduler/utils/__init__.py'],
         mech=[('service works', GRAPH + ':WorkGraph.from_nodes'), ('order', GRAPH + ':GraphNode.traverse_children'),
               ('chain heads', 'sampo/scheduler/utils/__init__.py:get_head_nodes_with_connections_mappings_nodes')],
         obs=['answers of nodes and graph']),
    dict(id='P19', title='Agents plan every block of a project once, in order',
         statement='When several agents plan a graph of blocks, each block is planned exactly once by one agent with its own '
                   'contractors, starts after all blocks it depends on are finished, and goes to the agent that offers the '
                   'earliest finish (the first of them on ties). Contractors of an agent are never over-used over all blocks. '
                   'Ordering and copying a block graph and making one work graph of it keep all blocks, works and '
                   'dependencies, and the given blocks are not changed.',
         over=['inputs', 'schedules'], q='every dependency graph of the blocks and of their works, all durations and lags of '
         'the stated sizes', why='the tests of this part cannot be run without torch, and run auctions on one random graph',
         files=['sampo/scheduler/multi_agency/multi_agency.py', 'sampo/scheduler/multi_agency/block_graph.py'],
         mech=[('auction', 'sampo/scheduler/multi_agency/multi_agency.py:Manager.run_auction'),
               ('order of blocks', 'sampo/scheduler/multi_agency/block_graph.py:BlockGraph')],
         obs=['scheduled blocks', 'block graph and work graph returned']),
    dict(id='P20', title='Chromosomes are judged, decoded and rated for what they say',
         statement='The genetic scheduler takes a chromosome as correct exactly when its order respects dependencies and '
                   'priorities, each contractor is allowed and has the workers of the genes and of given teams within the '
                   'borders, and the borders are within the capacity. A correct chromosome gets a valid schedule and the '
                   'fitness its fitness function defines, an incorrect one none and an infinite fitness; it is not changed. '
                   'The chromosome of a schedule is correct and decodes to the same teams; serially also to the times of the '
                   'schedulers that search gaps in the same order.',
         over=['inputs', 'schedules'], q='every chromosome, admissible or not, of the stated sizes and every schedule made by '
         'the schedulers', why='the genetic algorithm only meets a few random chromosomes per run and hides wrong ratings',
         files=['sampo/scheduler/genetic/operators.py', CONV, 'sampo/utilities/resource_usage.py'],
         mech=[('judging', 'sampo/scheduler/genetic/operators.py:is_chromosome_correct'),
               ('rating', 'sampo/scheduler/genetic/operators.py:FitnessFunction subclasses'),
               ('from schedules', CONV + ':convert_schedule_to_chromosome')],
         obs=['result of validate and evaluate of the toolbox, fitness values, decoded schedule']),
    dict(id='P21', title='Critical paths and scheduling ranks are longest paths',
         statement='The critical path asked for a graph, for a schedule or for a scheduled project (also after its works were '
                   'divided into stages) is a path from the start to the finish whose total duration no other path exceeds. '
                   'HEFT orders each priority group by the longest remaining path, LFT by the latest finish that the longest '
                   'paths leave, and these latest starts and finishes are right.',
         over=['inputs'], q='every graph of the stated sizes over all durations',
         why='tests do not look at paths or ranks; a wrong rank still gives a valid, only longer schedule',
         files=['sampo/scheduler/utils/critical_path.py', 'sampo/scheduler/heft/prioritization.py',
                'sampo/scheduler/lft/prioritization.py', 'sampo/schemas/project.py'],
         mech=[('critical path', 'sampo/scheduler/utils/critical_path.py'),
               ('path of a divided project', 'sampo/schemas/project.py:ScheduledProject.critical_path'),
               ('upward ranks', 'sampo/scheduler/heft/prioritization.py'),
               ('latest finishes', 'sampo/scheduler/lft/prioritization.py:map_lft_lst')],
         obs=['returned path and order']),
    dict(id='P22', title='Searches for teams and contractors stay in range and take the best offer',
         statement='Every optimizer of team sizes answers within the borders, changes neither the borders nor the sizes it was '
                   'told to keep, and the one-dimensional search ends at most one worker from the best size if the time '
                   'first falls, then rises. The contractor search asks only allowed contractors and takes the earliest '
                   'finish (of equal ones the smallest contractor); it fails exactly if none of them can do the work. '
                   'Borders are the requirement cut to what the contractor owns.',
         over=['inputs'], q='every time function of the team, range, mask, contractor size and offer within the stated sizes',
         why='tests only run the searches inside of schedulers with the built-in estimator',
         files=['sampo/utilities/base_opt.py', 'sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/base.py',
                'sampo/scheduler/resource/average_req.py', 'sampo/scheduler/resource/coordinate_descent.py',
                'sampo/scheduler/resource/full_scan.py', 'sampo/scheduler/resource/identity.py'],
         mech=[('one-dimensional search', 'sampo/utilities/base_opt.py:dichotomy_int'),
               ('choice of the contractor', 'sampo/scheduler/utils/multi_contractor.py:run_contractor_search'),
               ('given sizes', 'sampo/scheduler/base.py:Scheduler.optimize_resources_using_spec')],
         obs=['team sizes asked and returned, chosen contractor']),
    dict(id='P23', title='The genetic search returns the best valid schedule it met',
         statement='Given start schedules, the genetic search returns valid schedules within the terms. With one objective '
                   'nothing it evaluated is better than what it returns, with several no start schedule is better and '
                   'no returned schedule is worse than another. If a deadline is given and a start schedule meets it, so do the returned '
                   'ones. The last population has at most the asked for size and only correct chromosomes.',
         over=['inputs', 'schedules', 'histories'],
         q='every fitness function, start population, offspring and random choice within the stated bounds',
         why='tests run a few generations with fixed seeds and look only for a schedule to be returned',
         files=['sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/operators.py',
                'sampo/scheduler/genetic/base.py'],
         mech=[('main loop', 'sampo/scheduler/genetic/schedule_builder.py:build_schedules_with_cache'),
               ('selection', 'sampo/scheduler/genetic/operators.py:select_new_population')],
         obs=['returned schedules, last population, evaluated fitness values']),
    dict(id='P24', title='Pipelines deliver a valid plan of the given project',
         statement='A scheduling pipeline turns a work graph, contractors, terms and a start into a project whose schedule lists '
                   'every given work once, is valid for the graph that was scheduled, obeys every dependency of the given graph '
                   '(with lags as the chosen lag optimization reads them), the given terms and the start, and leaves the given '
                   'terms unchanged. This holds for every lag optimization strategy (AUTO delivers the better of the two), for the '
                   'local optimizers of order and schedule, once or several times. Contractors are refused exactly if some work '
                   'can be done by none of them.',
         over=['inputs', 'schedules'],
         q='every graph, lag, duration, capacity and subset of terms of the stated sizes, each scheduler, strategy and optimizer',
         why='tests run pipelines on a few generated graphs and look only at the number of works',
         files=['sampo/pipeline/default.py', 'sampo/pipeline/delegating.py', 'sampo/scheduler/utils/local_optimization.py',
                'sampo/schemas/project.py', 'sampo/schemas/apply_queue.py', 'sampo/structurator/base.py'],
         mech=[('strategies of lag optimization', 'sampo/pipeline/default.py:DefaultInputPipeline.schedule'),
               ('swapping works of the order', 'sampo/scheduler/utils/local_optimization.py:SwapOrderLocalOptimizer'),
               ('making works parallel', 'sampo/scheduler/utils/local_optimization.py:ParallelizeScheduleLocalOptimizer'),
               ('check of contractors', 'sampo/pipeline/default.py:contractors_can_perform_work_graph')],
         obs=['schedule and raw schedule of the finished project']),
    dict(id='P25', title='Time estimates and generated inputs stay within what was specified',
         statement='The default estimate of a work is infinite exactly if the team lacks the minimum of a required kind, zero without a '
                   'team, and otherwise the time its slowest kind needs (amount divided by what that kind achieves with its productivity and '
                   'team efficiency, rounded up). More workers within the maximum, less to do or better workers never take longer; '
                   'random productivities keep the estimate between those of the extreme productivities and finite. Random numbers of an '
                   'interval lie within its borders and come from the given source. A contractor generated for a graph can do '
                   'every work of it and has the counts the method and the scale ask for. Additional works drawn for a graph come after the '
                   'work they belong to, exactly if drawn, and leave the given graph and its dependencies unchanged. Generated '
                   'requirements can be satisfied.',
         over=['inputs'], q='every volume, requirement, team and random answer within the stated bounds',
         why='tests estimate a few works with fixed seeds and only look whether generated objects exist',
         files=['sampo/schemas/time_estimator.py', 'sampo/schemas/interval.py', 'sampo/schemas/structure_estimator.py',
                'sampo/schemas/contractor.py', 'sampo/generator/environment/contractor.py',
                'sampo/generator/environment/contractor_by_wg.py', 'sampo/schemas/resources.py'],
         mech=[('estimate', 'sampo/schemas/time_estimator.py:DefaultWorkEstimator.estimate_time'),
               ('random values', 'sampo/schemas/interval.py'),
               ('generated contractors', 'sampo/generator/environment/contractor_by_wg.py:get_contractor_by_wg'),
               ('generated structure', 'sampo/schemas/structure_estimator.py')],
         obs=['estimated times, random values, generated contractors and works']),
    dict(id='P26', title='Planning to a deadline and genetic planning obey the terms',
         statement='The scheduler that plans to a deadline returns a valid schedule that obeys the given terms, leaves them '
                   'unchanged, and meets the deadline if the largest teams or the smallest teams meet it; it reports no schedule, without '
                   'failing, if no contractor can do the works. The genetic scheduler as a whole returns valid schedules that '
                   'obey the terms (contractor, team, time, independence), with each decoder, start population and way of optimizing.',
         over=['inputs', 'schedules'],
         q='every duration of every team, deadline, subset of terms and (the first) random answers within the stated bounds',
         why='the tests of deadline planning do not run reliably; genetic tests never give terms together with optimization',
         files=['sampo/scheduler/resources_in_time/average_binary_search.py', 'sampo/scheduler/genetic/base.py',
                'sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/resource/average_req.py'],
         mech=[('search for team sizes', 'sampo/scheduler/resources_in_time/average_binary_search.py'),
               ('start population', 'sampo/scheduler/genetic/base.py:GeneticScheduler.generate_first_population')],
         obs=['returned schedules, terms before and after']),
    dict(id='P27', title='During every work each zone has the status the work requires',
         statement='In a schedule made with zones, each zone has a status the work requires during the whole work; every change of status is '
                   'recorded, starts from the status the zone has, takes its stated time, and overlaps neither other changes nor works that need '
                   'the old or the new status. At the end of the project the zones have their final statuses. Zones that have the right '
                   'status all along delay nothing, and no work waits longer than until all other works of its zones are done and the status is changed. '
                   'This holds for all list schedulers and both ways to decode chromosomes.',
         over=['inputs', 'schedules', 'histories'],
         q='every initial, required and final status, costs of changes, durations, graphs within the stated sizes',
         why='the tests of zones do not run reliably and check only that a schedule is returned',
         files=['sampo/scheduler/timeline/zone_timeline.py', 'sampo/schemas/zones.py', 'sampo/schemas/requirements.py',
                'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
                'sampo/scheduler/generic.py', 'sampo/scheduler/lft/base.py', 'sampo/scheduler/genetic/converter.py'],
         mech=[('record of a zone', 'sampo/scheduler/timeline/zone_timeline.py'),
               ('final statuses', 'sampo/scheduler/generic.py:GenericScheduler.build_scheduler')],
         obs=['schedule with its recorded changes of status']),
    dict(id='P28', title='Routes are shortest, use allowed roads and are found when they exist',
         statement='For every transport graph, with any number of roads between two nodes, the distances and roads computed for each pair of '
                   'nodes are those of a shortest path, the sequence of roads leads from the one node to the other and its lengths sum to the '
                   'distance. The route over a given set of roads uses only these roads, is shortest among the routes that do, and is '
                   'found if and only if one exists. Storages are sorted by their distance.',
         over=['inputs'],
         q='every transport graph, length and set of allowed roads within the stated sizes',
         why='no test asserts a route; a wrong one only delays deliveries',
         files=['sampo/schemas/landscape.py', 'sampo/schemas/landscape_graph.py'],
         mech=[('routes and distances', 'sampo/schemas/landscape.py'), ('transport graph', 'sampo/schemas/landscape_graph.py')]),
    dict(id='P29', title='Works start with their materials on the platform; supply is not overused',
         statement='In a plan made with a transport graph each work starts when the materials it needs are on its platform: initial stock and '
                   'what was delivered by then cover all that was used by then, and the platform never stores more than its capacity. '
                   'Deliveries come from storages that have a road to the platform and never give out more than a storage has, take at least the '
                   'time of the road, and use at no moment more vehicles than the storage has or the road lets pass. A plan is refused for lack '
                   'of materials only if they can really be lacking. This holds for the list schedulers and both ways to decode '
                   'chromosomes; the moment that the record of supplies finds is accepted and kept when the delivery is booked.',
         over=['inputs', 'schedules', 'histories'],
         q='every stock, capacity, need, order of works and moment, within the stated sizes',
         why='the tests of materials do not run reliably and check only that a schedule is returned',
         files=['sampo/scheduler/timeline/hybrid_supply_timeline.py', 'sampo/scheduler/timeline/platform_timeline.py',
                'sampo/schemas/landscape.py', 'sampo/schemas/landscape_graph.py',
                'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py'],
         mech=[('deliveries', 'sampo/scheduler/timeline/hybrid_supply_timeline.py'),
               ('stock of a platform', 'sampo/scheduler/timeline/platform_timeline.py')]),
    dict(id='P30', title='Start populations are correct in both backends; values do not depend on it',
         statement='Whichever computational backend is used, the individuals a genetic search starts with are of the asked number and each is '
                   'correct: an order of all works that follows the dependencies, contractors that exist and are allowed, teams between the '
                   'minimum and the maximum that the contractor has, and the given terms (teams, moments) kept with it. Any size of '
                   'population and any weights of kinds can be drawn. The value of an individual does not depend on the backend and '
                   'is the value of the plan it decodes to. The hybrid search starts from the plans of its heuristics under the '
                   'same conditions, and returns an individual it has met and no better one was met in the populations that keep it.',
         over=['inputs', 'schedules'],
         q='every graph, duration, spec, random order and drawing of kinds, population size and fitness value within the stated sizes',
         why='tests run neither the parallel backend nor the hybrid search; the default start population is only used, not examined',
         files=['sampo/backend/default.py', 'sampo/backend/multiproc.py', 'sampo/hybrid/population.py', 'sampo/hybrid/cycle.py',
                'sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/base.py'],
         mech=[('start individuals', 'sampo/scheduler/genetic/operators.py:generate_chromosomes'),
               ('parallel backend', 'sampo/backend/multiproc.py'), ('hybrid search', 'sampo/hybrid/cycle.py')]),
    dict(id='P31', title='Works tables load into the graph they describe',
         statement='For every works table of the documented form, with or without the optional columns and with its rows in any order, the '
                   'loaded graph has exactly the listed works, each with its name, type, volume, required workers, zones, description and '
                   'priority, and exactly the listed dependencies between listed works with their kinds and lags (finish-start without '
                   'lag where not given). Loops of links are broken by removing only links that lie on a loop, each a lightest one of '
                   'some loop; without loops nothing is removed. History adds links only between works of the table, in the more '
                   'frequent direction and of a kind that was seen there, keeps the given links, and changes their kind or lag only '
                   'on demand and only to what was seen for that link. Contractors of a table get its ids, names and numbers of workers. A '
                   'graph written as a table and read back is the same graph.',
         over=['inputs', 'histories'],
         q='every set of links, order of rows, number, choice of optional columns and history within the stated sizes',
         why='the only test loads a table of two works and checks that nothing fails',
         files=['sampo/userinput/parser/csv_parser.py', 'sampo/userinput/parser/general_build.py', 'sampo/userinput/parser/history.py',
                'sampo/pipeline/preparation.py', 'sampo/utilities/name_mapper.py', 'sampo/schemas/graph.py'],
         mech=[('loops', 'sampo/userinput/parser/general_build.py:Graph'),
               ('history', 'sampo/userinput/parser/history.py:set_connections_info'),
               ('table to graph', 'sampo/userinput/parser/general_build.py:build_work_graph')]),
    dict(id='P32', title='Usage figures and charts show what the schedule says',
         statement='Totals, peaks, sums and costs of the workers a schedule employs, over all or over chosen kinds, are those of its works '
                   'running at each moment. A schedule moved to a calendar date has every work at that date plus its start and finish, '
                   'divided works as one work, and stays itself unchanged. The chart data by days show for each day from start to '
                   'finish of a work its workers, by works its teams in order of start, and by workers as many bars as are employed. The '
                   'Gantt chart shows each work, each change of a zone and each delivery once with its dates, and the chart of a work '
                   'graph each work once after its predecessors.',
         over=['inputs', 'schedules'],
         q='every start, finish, team, zone change, delivery and graph within the stated sizes',
         why='the tests only call the figures on a single schedule, and no test looks at the data of a chart',
         files=['sampo/utilities/resource_usage.py', 'sampo/utilities/schedule.py', 'sampo/utilities/visualization/schedule.py',
                'sampo/utilities/visualization/resources.py', 'sampo/utilities/visualization/work_graph.py',
                'sampo/schemas/schedule.py'],
         mech=[('usage figures', 'sampo/utilities/resource_usage.py'),
               ('dates', 'sampo/utilities/schedule.py'),
               ('charts', 'sampo/utilities/visualization/resources.py')]),
]
NA = []
