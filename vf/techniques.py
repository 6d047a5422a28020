"""technique and level_note of each check, for MANIFEST.json (bin/mkmanifest)"""
_M = 'seeded random histories; every observation is compared online. Assumes the reference model (vf/model.py, vf/gmodel.py) states the definition; nothing is claimed for inputs not generated.'
TECH = {
    'C01': ('online model-based monitor: real code driven by long random operation histories, every state compared with Python sets of frozensets', _M),
    'C02': ('online oracle: sizes, restrictions and interleaved, abandoned and re-created iterators compared with models (explicit sets; signed sums of cubes for families of up to 2^900 members)', _M),
    'C03': ('online monitor of running weighted iterators: membership, exactly-once, order and optimum against recomputed sums; big families against Kruskal, Dijkstra and subset-sum enumeration', _M),
    'C04': ('statistical monitor: recorded random picks and random iteration orders tested for uniformity (chi-square with a confirming second stage), element and pair frequencies of astronomically large families against exact counts', 'statistical: deviations too small for the sample sizes are not seen; a uniform generator is reported with probability below 1e-9 per run'),
    'C05': ('online model-based monitor of every family operator against its set-theoretic definition', _M),
    'C06': ('online oracle: graphs() results compared with brute force over all edge subsets of the universe', _M),
    'C07': ('online oracle: every named search compared with brute force over all edge subsets, with and without a base collection', _M),
    'C08': ('online oracle: every degree-structured search compared with brute force over all edge subsets', _M),
    'C09': ('online oracle: partitions, induced searches and graph classes compared with brute force over all edge subsets', _M),
    'C10': ('online oracle: probabilities and reliabilities compared with exact rational sums over all subsets (small) and closed forms (large series-parallel networks)', _M),
    'C11': ('online oracle: cost-bounded subfamilies compared with recomputed sums (small) and the exact distribution of sums (families of up to 2^600 members)', _M),
    'C12': ('online oracle: every directed search compared with evaluation on all arc sets (small) and with determinants, factorials and path counts (large)', _M),
    'C13': ('online oracle: vertex-set families compared with evaluation on all vertex sets (small) and with transfer counts on paths, cycles, stars, bipartite graphs (large)', _M),
    'C14': ('online oracle: every conversion compared member by member with the endpoint map; sizes, membership and closure of random members for large families', _M),
    'C15': ('recorded texts replayed: every family written through strings, files, pipes is read back here and in fresh processes and compared with its model; damaged texts and failing devices must be rejected', _M),
    'C22': ('Python threads with switch intervals from a microsecond to the default work on families of their own, each answer compared with the one of a single thread; the same under ThreadSanitizer, for the native code that runs without the GIL', 'only executed schedules are judged: perturbed by switch intervals and barriers, counted by a hash of the order of the steps'),
    'C23': ('online oracle: one-step neighbourhoods compared with brute force over the members (small) and with closed-form counts and memberships (cubes and layers over up to 200 elements), while the store keeps growing', _M),
    'C18': ('AddressSanitizer and UndefinedBehaviorSanitizer under random public calls with hostile arguments (objects that lie, raise or change the families while in use) and under the workloads of the other properties', 'only executed paths are judged; a report of the sanitizers or the death of the process is the verdict'),
    'C24': ('online monitor: calls with invalid arguments must raise within the process and leave every family, universe and later answer as it was', _M),
    'C19': ('resource monitor: a call repeated with fixed arguments, and operators on ever new families, while reference counts of every caller-owned object, node references of the store (audited through a probe), interpreter blocks and heap bytes are recorded; a verdict needs movement in every round', 'growth below one unit per call and memory not obtained from malloc or the store are not seen'),
    'C20': ('invariant audit of the live node store through a probe (unique tables, counters, free list, operation cache) during histories with forced collections, a store of limited size and overflowed reference counters, every family kept as a Python set as well', _M),
    'C21': ('ThreadSanitizer on a private OpenMP runtime whose synchronisation it sees, which delays threads at random; answers with 2-16 threads compared with one thread and with an independent exact count', 'only executed schedules are judged: randomly perturbed ones, counted by a hash of which thread took which piece of work'),
    'C25': ('online oracle at scale: counts of searches over up to 300 edges compared with an independent dynamic program, determinants and published numbers; identities between answers; sampled members and their neighbours evaluated directly', _M),
    'C17': ('differential monitor: recorded answers (contents, diagrams, sizes) of a program in a process with a long, disturbed past compared with those of a freshly started process; kept families re-observed after universe changes', _M),
    'C16': ('differential monitor: the same program of questions is run under several labellings, listings, traversals and histories of one universe and the recorded answers compared after renaming', _M),
    'C26': ('differential monitor: the same program of questions is run with edge lists and with graph objects (NetworkX and a private graph class, through the converters), and the recorded answers compared; every object handed out is checked for its type', _M),
    'C27': ('round-trip monitor: reported universes and text forms are compared with what was given, registered or evaluated again, and the families kept over it re-observed', _M),
}
