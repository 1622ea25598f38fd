from . import copies, edges, io, meta, motif, nodes, order, predict, safety, snaps, static  # noqa: F401
