from . import threads, seeds, io, loading, memory, clocks, instances, images, release, options, batteries
CHECKS = {}
for m in (threads, seeds, io, loading, memory, clocks, instances, images, release, options, batteries):
    for v in vars(m).values():
        if isinstance(v, type) and getattr(v, 'id', None) and v.__module__ == m.__name__:
            CHECKS[v.id] = v
