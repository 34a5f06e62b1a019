"""Loading the real SAMPO code from /repo and preparing it for symbolic execution.

concrete mode: nothing is patched.
symbolic mode: the builtins int/float/max/min that SAMPO modules see are replaced by versions that
accept symbolic values (vt.sym); uuid4 is made deterministic; nothing else of the code changes.
"""
import importlib
import os
import sys
import types

REPO = os.environ.get('VT_REPO', '/repo')
TIME_HASH = None


def _stub(name, **attrs):
    if name in sys.modules:
        return
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m


def load():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(5000)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings('ignore')
    import sampo.scheduler  # noqa (must come first: circular imports)
    import sampo
    assert os.path.realpath(sampo.__file__).startswith(os.path.realpath(REPO)), sampo.__file__
    for m in ('sampo.utilities.validation', 'sampo.utilities.schedule', 'sampo.scheduler.genetic.operators',
              'sampo.scheduler.genetic.converter', 'sampo.scheduler.genetic.schedule_builder',
              'sampo.scheduler.heft.base', 'sampo.scheduler.lft.base', 'sampo.scheduler.topological.base',
              'sampo.structurator.base', 'sampo.structurator.insert_wu',
              'sampo.structurator.delete_graph_node', 'sampo.structurator.prepare_wg_copy',
              'sampo.scheduler.utils.local_optimization', 'sampo.utilities.resource_usage',
              'sampo.scheduler.timeline.zone_timeline', 'sampo.scheduler.timeline.hybrid_supply_timeline',
              'sampo.scheduler.timeline.to_start_supply_timeline', 'sampo.scheduler.timeline.general_timeline',
              'sampo.utilities.linked_list', 'sampo.utilities.priority', 'sampo.schemas.sorted_list',
              'sampo.userinput.parser.general_build', 'sampo.scheduler.utils.critical_path',
              'sampo.scheduler.resources_in_time.average_binary_search', 'sampo.scheduler.utils.obstruction',
              'sampo.utilities.collections_util', 'sampo.utilities.base_opt', 'sampo.utilities.name_mapper',
              'sampo.scheduler.resource.average_req', 'sampo.scheduler.resource.coordinate_descent',
              'sampo.scheduler.resource.full_scan', 'sampo.scheduler.resource.identity',
              'sampo.userinput.parser.csv_parser', 'sampo.userinput.parser.history',
              'sampo.pipeline', 'sampo.schemas.landscape_graph', 'sampo.schemas.project',
              'sampo.scheduler.multi_agency.block_graph', 'sampo.scheduler.multi_agency.multi_agency',
              'sampo.utilities.datetime_util', 'sampo.backend.default', 'sampo.schemas.structure_estimator',
              'sampo.hybrid.population', 'sampo.hybrid.cycle', 'sampo.utilities.sampler',
              ):
        try:
            importlib.import_module(m)
        except Exception as ex:  # an optional part is not importable here; harnesses that need it fail on their own
            if os.environ.get('VT_DEBUG'):
                print('not importable:', m, repr(ex), file=sys.stderr)


def sampo_modules():
    return [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'sampo' and m is not None]


def det_uuid():
    from . import engine
    import uuid
    for m in sampo_modules():
        if getattr(m, 'uuid4', None) is uuid.uuid4:
            m.uuid4 = engine.det_uuid4
    uuid.uuid4 = engine.det_uuid4


def symbolic():
    """Inject the symbolic builtins (after load())."""
    from . import sym
    for m in sampo_modules():
        for n, f in sym.INJECT.items():
            if n not in m.__dict__:
                m.__dict__[n] = f
    det_uuid()
    # a hash would have to follow every value; with a constant one, equal keys are told apart by ==, which the solver decides
    from sampo.schemas.time import Time
    global TIME_HASH
    TIME_HASH = Time.__hash__
    Time.__hash__ = lambda self: 7
