"""What each check runs: parts of (module, build variant, sessions x cases)."""

PROPS = {
    'C01': dict(
        parts=[dict(mod='algebra', quick=(16, 350), thorough=(64, 3000))],
        rule='a (collection type, operation, model contents) triple counts once'),
    'C02': dict(
        parts=[dict(mod='counts', quick=(16, 120), thorough=(64, 3000))],
        rule='a (collection type, universe size, model contents) triple counts once'),
    'C03': dict(
        parts=[dict(mod='weighted', quick=(16, 800), thorough=(64, 20000))],
        rule='a (collection type, model contents, weights) triple counts once'),
    'C04': dict(
        parts=[dict(mod='picks', quick=(16, 24), thorough=(64, 400))],
        rule='a family sampled often enough for a test of uniformity counts once'),
    'C05': dict(
        parts=[dict(mod='operators', quick=(16, 300), thorough=(64, 3000))],
        rule='a (operator, collection type, operand contents) triple counts once'),
    'C06': dict(
        parts=[dict(mod='search', quick=(16, 350), thorough=(64, 4000))],
        rule='a (universe, constraints) pair with a result that is neither empty nor everything counts once'),
    'C07': dict(
        parts=[dict(mod='shapes', quick=(16, 250), thorough=(64, 3000))],
        rule='a (universe, search, arguments) triple with a result that is neither empty nor everything counts once'),
    'C08': dict(
        parts=[dict(mod='shapes', quick=(16, 250), thorough=(64, 3000))],
        rule='a (universe, search, arguments) triple with a result that is neither empty nor everything counts once'),
    'C09': dict(
        parts=[dict(mod='partition', quick=(16, 900), thorough=(64, 3000))],
        rule='a (universe, search, arguments) triple with a result that is neither empty nor everything counts once'),
    'C10': dict(
        parts=[dict(mod='reliab', quick=(16, 150), thorough=(64, 3000))],
        rule='a (universe or contents, probabilities, terminals) triple counts once'),
    'C11': dict(
        parts=[dict(mod='costs', quick=(16, 120), thorough=(64, 4000))],
        rule='a (collection type, comparison, bound, costs, contents) tuple with a result that is neither empty nor everything counts once'),
    'C12': dict(
        parts=[dict(mod='directed', quick=(16, 150), thorough=(64, 2500))],
        rule='a (universe, search, arguments) triple with a result that is neither empty nor everything counts once'),
    'C13': dict(
        parts=[dict(mod='vertexfam', quick=(16, 120), thorough=(64, 2500))],
        rule='a (graph, edges as given) pair counts once'),
    'C14': dict(
        parts=[dict(mod='convert', quick=(16, 150), thorough=(64, 3000))],
        rule='a (conversion, graph, traversal, family) tuple counts once'),
    'C15': dict(
        parts=[dict(mod='dumps', quick=(16, 150), thorough=(64, 2500))],
        rule='a (collection type, contents) pair read back, or a damaged text, counts once'),
    'C16': dict(
        parts=[dict(mod='relab', quick=(16, 100), thorough=(64, 2000))],
        rule='a (universe, question, answer) triple with a non-empty answer counts once'),
    'C17': dict(
        parts=[dict(mod='history', quick=(16, 60), thorough=(64, 1500))],
        rule='a (universe, question, answer) triple with a non-empty answer counts once'),
    'C18': dict(
        parts=[dict(mod='fuzz', variant='asan', quick=(16, 80), thorough=(64, 1500)),
               dict(mod='under', variant='asan', quick=(16, 200), thorough=(64, 3000))],
        rule='a (method, outcome) pair of random calls, and what counts once for the property whose workload runs'),
    'C24': dict(
        parts=[dict(mod='rejects', quick=(16, 240), thorough=(64, 1500))],
        rule='a (method, kind of bad argument, exception) triple counts once'),
    'C19': dict(
        parts=[dict(mod='leaks', quick=(16, 60), thorough=(64, 1500), env={'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'})],
        rule='a (method, outcome) pair of a repeated call, or an operator applied to new families over and over, counts once'),
    'C20': dict(
        parts=[dict(mod='nodes', quick=(16, 250), thorough=(64, 1500))],
        rule='a (collection type, size, steps, failures, collections, size of the store) tuple of a history counts once'),
    'C21': dict(
        parts=[dict(mod='parallel', variant='tsan', quick=(16, 16), thorough=(64, 300), tag='t', cost=3, case_limit=300),
               dict(mod='parallel', variant='sched', quick=(16, 50), thorough=(64, 1000), tag='s', cost=2),
               dict(mod='parallel', variant='plain', quick=(8, 40), thorough=(32, 600))],
        rule='a (search, number of threads, hash of which thread took which piece of work) triple counts once'),
    'C22': dict(
        parts=[dict(mod='threads', quick=(16, 120), thorough=(64, 2000)),
               dict(mod='threads', variant='tsan', quick=(8, 12), thorough=(32, 200), tag='t', cost=3, case_limit=300)],
        rule='a (number of threads, hash of the order in which threads took their steps) pair counts once'),
    'C23': dict(
        parts=[dict(mod='neighbours', quick=(16, 250), thorough=(64, 4000))],
        rule='a (collection type, step, universe size, contents) tuple counts once'),
    'C25': dict(
        parts=[dict(mod='scale', quick=(16, 100), thorough=(64, 1500))],
        rule='a (graph, search, number of answers) triple with an answer that is neither nothing nor everything counts once'),
    'C26': dict(
        parts=[dict(mod='graphobj', quick=(16, 600), thorough=(64, 8000))],
        rule='a (library, universe, question, answer) tuple with a non-empty answer counts once'),
    'C27': dict(
        parts=[dict(mod='reports', quick=(16, 3000), thorough=(64, 50000))],
        rule='a (collection type, traversal, edges, weights) tuple or a text form counts once'),
}
