ROWS = [
    ("C01", "every rank enters the environment set-up (world 1–12, groups 1–9), then talks on its subgroup", "arrival order, delays, stalled ranks", "requirements on the mapping (complete, no duplicates, balanced, equal on all ranks) and on who a subgroup collective reaches"),
    ("C02", "one to three consecutive entries of the environment with a body that may raise", "rendezvous, subgroup, tear-down, body failures on any subset of ranks", "no communicator left, body exception unchanged, consistent fallback, re-entry works"),
    ("C03", "k ranks trace shares of one group (uneven masks, batches, more ranks than samples)", "interleavings of the ranks' ray-tracing calls", "ownership partition of the samples, row counts, and bitmap equality with one process under the same draws"),
    ("C04", "all ranks trace their groups and all-reduce bitmaps per target", "message order and delays", "sums equal the unbatched one-process run, per target"),
    ("C05", "one to five ranks trace planar and cylindrical targets of any orientation and opening (up to all around), aimed at or not, with variations of irradiance, reflectivity, extinction and blocking", "interleavings of the ranks' ray-tracing calls, message order", "conservation: power in each bitmap against rays sent and intercept, factor bounds, linearity, monotony under blocking, total after the reduction; ray-target geometry in double precision (which share of a beam hits, and around which pixel)"),
    ("C06", "the four optimisations on 1–5 ranks, idle ranks and groups included", "message and rank delays", "termination, at most epochs+1 steps per group, matching collectives (kind, shape, order), no deadlock"),
    ("C07", "as C06", "as C06", "replica equality at every step; losses, first gradients and final parameters against one process"),
    ("C08", "as C06", "death, broken connection, failing allocation, stalls up to beyond the timeout at drawn collectives or optimizer steps", "each survivor has the fault-free result or an exception within the timeout; environment closed"),
    ("C09", "scenario generation over a missing or existing file by a simulated process, alone, beside a reader, or interleaved with a second generator", "process death, power loss (only synced data and names survive), torn/short/interrupted/failing writes, full disk, signal, unstorable value at drawn file operations", "digest of the file at the path is that of the old or of the complete new scenario; success implies new; failure leaves nothing behind; generating again afterwards succeeds"),
    ("C10", "scenario, STRAL and PAINT files generated from drawn data, read by a simulated process", "failing, interrupted, short and early-ending reads, truncated files, missing records", "loaded values equal the drawn data, computed without ARTIST, or an exception; complete input accepted"),
    ("C11", "generated trees of calibration measurements, each recognisable by number; selection, loading and train/test split", "permuted listings, vanishing files, failing, short, interrupted and early-ending reads, cut or incomplete files", "every loaded sample decoded back to one measurement; count, ownership, seed-determinism and independence from other heliostats; or an exception"),
    ("C12", "one reconstruction step on 1–4 ranks, of measurements produced by the scenario itself or disturbed ones", "message and rank delays, uneven data", "vanishing losses for own measurements; loss and first gradient of each heliostat equal those of a run with its data alone"),
    ("C13", "histories of surface fits sharing optimiser and scheduler; ideal and fitted surfaces written to a scenario file and loaded by 1–3 ranks", "interruption at a drawn optimizer step, failing allocation at a drawn tensor operation, interleavings of the loading ranks", "float64 B-spline model: start, gradient and loss of every step, number of steps, resulting control points, points and normals of the loaded field"),
    ("C14", "histories of activation, alignment, tracing, refused calls, parameter changes, optimisations and fits on several scenario objects", "failing allocation or interruption at a drawn tensor operation of any call, RNG perturbation", "each result equals that of a fresh scenario given the same parameters and inputs; evaluation changes no parameter; stale use raises"),
    ("C15", "as C06 with learning rates up to instability", "as C06", "frame conditions on the whole scenario state at every optimizer step and at the end; motor range; finiteness"),
    ("C16", "trees of tracked calls on 1–5 ranks, and processes importing ARTIST, choosing log files and calling tracked functions", "interleavings, wall clock jumps, failing, short and interrupted log writes, full disk", "expected record sequence and virtual elapsed time per call; identity of results and exceptions; contents of every log file"),
    ("C17", "dense fields cut into groups over ranks and batches", "interleavings", "bitmaps and blocking factors equal those of one group in one process; the loss of a heliostat lies between the largest and the sum of its losses to each other heliostat alone, and between straight-line bounds in double precision"),
    ("C18", "optimisations whose user loss follows a prescribed history, and real ones", "message and rank delays", "reference state machine of tolerance, early stopping, epoch budget and schedulers, step by step"),
    ("C19", "aim point optimisations and surface reconstructions whose loss fits or drains the light, also repeated on one optimiser object", "message and rank delays, interruption of the earlier run", "float64 augmented Lagrangian model fed with the recorded fluxes, intercept factors and control points: penalties, totals, multipliers, regularisation, final losses"),
]
