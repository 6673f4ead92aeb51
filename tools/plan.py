"""Which worlds decide which property, and how many runs (count, wall limit in seconds) per tier."""

PROPS = {
    'components': 'real: PothosCore library (Framework, Plugin, Proxy, Remote, Managed, Object, Callable, Util, Archive, System, configuration loaders) and, for C35, the PothosUtil proxy server, compiled from /repo, Poco, libstdc++; simulated: threads scheduling, mutexes, condition variables, clocks, sleeps, allocator placement, transports, files, network, dynamic loader, child processes (and so the compiler) and faulty system calls; stubbed: SIMD kernels; in the servers world also ScopedInit, the termination request and the default thread pool, which are kept per simulated process',
    'assumptions': [
        'context switches happen at atomic operations, locks, waits, thread start/exit and at sampled plain memory accesses of instrumented code; weak-memory reorderings are not executed, but missing happens-before edges are reported for the data the worlds annotate',
        'seeded sampling of schedules and faults, not exhaustive',
    ],
}


def W(world, q, ql, t, tl):
    return {'world': world, 'quick': (q, ql), 'thorough': (t, tl)}


PLAN = {
    'C01': {'worlds': [W('flow', 1800, 30, 200000, 900)]},
    'C02': {'worlds': [W('flow', 1800, 30, 200000, 900)]},
    'C03': {'worlds': [W('flow', 1800, 30, 200000, 900)]},
    'C04': {'worlds': [W('slots', 3000, 25, 300000, 900)]},
    'C05': {'worlds': [W('slots', 2000, 15, 200000, 600), W('flow', 900, 15, 100000, 600)]},
    'C06': {'worlds': [W('live', 1500, 25, 150000, 900), W('flow', 600, 10, 60000, 400)]},
    'C07': {'worlds': [W('flow', 1800, 30, 200000, 900), W('refs', 8000, 12, 500000, 300)]},
    'C08': {'worlds': [W('flow', 1800, 27, 200000, 800), W('slots', 1500, 12, 60000, 200)]},
    'C09': {'worlds': [W('idle', 2500, 30, 300000, 900)]},
    'C10': {'worlds': [W('pools', 2500, 30, 300000, 900)]},
    'C11': {'worlds': [W('live', 1800, 30, 200000, 900)]},
    'C12': {'worlds': [W('live', 1800, 30, 200000, 900)]},
    'C13': {'worlds': [W('live', 1800, 30, 200000, 900)]},
    'C14': {'worlds': [W('remote', 6000, 25, 300000, 900)]},
    'C15': {'worlds': [W('remote', 6000, 25, 300000, 900)]},
    'C16': {'worlds': [W('remote', 6000, 25, 400000, 900)]},
    'C17': {'worlds': [W('remote', 6000, 25, 300000, 900)]},
    'C18': {'worlds': [W('registry', 40000, 20, 2000000, 900)]},
    'C19': {'worlds': [W('registry', 40000, 20, 2000000, 900)]},
    'C20': {'worlds': [W('registry', 40000, 20, 2000000, 900)]},
    'C21': {'worlds': [W('refs', 40000, 20, 2000000, 900)]},
    'C22': {'worlds': [W('locks', 40000, 20, 2000000, 900)]},
    'C23': {'worlds': [W('mapped', 40000, 20, 2000000, 900)]},
    'C24': {'worlds': [W('connect', 12000, 25, 600000, 900)]},
    'C25': {'worlds': [W('archive', 40000, 20, 2000000, 900)]},
    'C26': {'worlds': [W('filelock', 40000, 20, 2000000, 900)]},
    'C27': {'worlds': [W('uid', 4000, 25, 1000000, 600)]},
    'C28': {'worlds': [W('flow', 1800, 30, 200000, 900)]},
    'C29': {'worlds': [W('span', 1200, 40, 60000, 1200)]},
    'C31': {'worlds': [W('modules', 9000, 35, 400000, 1200)]},
    'C32': {'worlds': [W('modules', 30000, 25, 1000000, 900)]},
    'C33': {'worlds': [W('conf', 8000, 35, 500000, 900)]},
    'C37': {'worlds': [W('design', 8000, 35, 300000, 900)]},
    'C36': {'worlds': [W('logger', 30000, 30, 1500000, 900)]},
    'C35': {'worlds': [W('servers', 12000, 35, 400000, 900)]},
    'C34': {'worlds': [W('conf', 5000, 35, 300000, 900)]},
}

NOT_APPLICABLE = {
    'C30': 'pure functions of their arguments (type markup, DType parsing, conversions between numbers, JSON and XML text handling): no thread, clock, I/O, randomness or fault for a simulator to control, so simulated schedules add nothing over ordinary tests of inputs',
}
