"""What the evidence file says of each check: how runs are made, what counts as
non-trivial and as a distinct state, what ran real code and what a stand-in."""

LIB = ["georinex (imported from /repo/src, unmodified)", "numpy, xarray, pandas", "gzip, bz2, zipfile, ncompress, hatanaka"]
NC = ["netCDF4 and libhdf5, writing to a scratch directory"]
DISK = "read side of the file system: open/read pass through a seam that decides size of delivery and failures; the bytes are real files in a scratch directory"
ENV = "os.urandom and temporary names: seeded; free memory query (psutil): simulated; contents of uninitialised arrays and failing allocations: decided at numpy's allocation functions when georinex calls them"
LINES = "program steps: georinex source lines seen through the interpreter's trace hook, at which interruptions, appends and thread switches are placed"
ASSUME = [
    "the generator writes only files that follow the RINEX 2.10-2.12, 3.01-3.04 and SP3-a/c/d layouts the library documents (see DESIGN.md for what is left out)",
    "faults are injected into georinex's own reads, opens and allocations; reads made inside compiled decompressors or child processes are not split",
]


def _m(rule, measure, level="exploration", real=(), stub=(), assume=()):
    return dict(rule=rule, measure=measure, level=level, real=LIB + list(real), stub=[DISK, ENV] + list(stub), assume=ASSUME + list(assume))


META = {
    "C01": _m(
        "A run draws one file, operations and options, and executes them three times in processes of different hash seed and locale, with different time zone, directory, read sizes, memory contents, free memory and earlier (also failing) operations; non-trivial when the reference variant completed. All three canonical results must be equal.",
        "distinct (format, operation, source kind, container, options used, variant, outcome)",
        real=["the interpreter's hash seed, locale and time zone: real settings of the worker processes"],
    ),
    "C02": _m(
        "A run draws an observation file from a seed (its truth is kept apart), a delivery (buffer and read sizes), and one of: intact, cut at a drawn byte, a read failing with EIO; the load is compared with the reference model value by value. Non-trivial when values were compared, the cut file was refused, or the read error fired.",
        "distinct (format, version, mode, source kind, options, buffer size, outcome, number of epochs up to 4)",
    ),
    "C03": _m(
        "As C02 with navigation files: systems, record order, repeated records, spare-field layouts, ionospheric coefficients, cuts and read errors.",
        "distinct (format, version, mode, source kind, options, buffer size, outcome, number of records up to 4)",
    ),
    "C04": _m(
        "As C02 with SP3-a/c/d orbit files: satellites on up to seven header lines, velocities, EP/EV records, absent values, cuts, read errors, garbage in uninitialised arrays.",
        "distinct (version, mode, source kind, buffer size, outcome, number of epochs up to 4)",
    ),
    "C05": _m(
        "A run draws a file of any kind and stores it as gzip/bzip2 (one or several members), zip, .Z, CRINEX or CRINEX inside these, named by suffix or recognisable by content only, intact, cut, or with a failing read. Intact: equal to the model and to the load of the plain file. Cut: refused, or (Z, CRINEX) only true data. Non-trivial when data was compared or the container was cut or failed.",
        "distinct (format, container, CRINEX or not, naming, members, mode, outcome)",
    ),
    "C06": _m(
        "A run draws a file and any combination of time window, interval, system, measurement, indicator and mode options, a source kind and a delivery; the load is compared with the selection applied to the truth. Non-trivial when options were given and values remained.",
        "distinct (format, version, source kind, options given, outcome)",
    ),
    "C07": _m(
        "A run draws a text and a history of 2-8 operations on one stream: type detection, header, times, loads with options, caller seeks/reads/iteration, and operations made to fail by MemoryError, interruption or bad arguments; every answer is compared with that of a fresh stream in another process. Non-trivial when the history has more than one operation.",
        "distinct (format, CRINEX, stream kind, operation, operation before it, outcome)",
        stub=[LINES],
    ),
    "C08": _m(
        "A run draws a file, how much of it exists when the load starts, and up to 6 appends of whole records, each placed before a drawn read or a drawn program step of the load; the result must hold everything present at the start and nothing not written. Non-trivial when an append landed during the load.",
        "distinct (format, operation, options, places of the appends and whether each happened, outcome)",
        stub=[LINES],
        assume=["appends are whole epochs or records, in order, each atomic with respect to a read"],
    ),
    "C09": _m(
        "A run draws 2-4 files and a history of 3-9 conversions (new, append of the other kind, overwrite, refused), failing conversions, reloads and type queries on one or two outputs, some in processes of their own and some while an earlier load is held open, and reloads while reads of the output fail or come short; after each step the output is read by a separate process and compared with what the plain load gave. Non-trivial when a conversion succeeded.",
        "distinct (format, content before, overwrite, directory target, separate process, outcome, held handle)",
        real=NC,
    ),
    "C10": _m(
        "A run draws a conversion case (new, overwrite, append, orbits, refusal) and records its storage operations; then for 3-7 drawn faults it repeats the conversion and kills the process, tears a write, fails one or all later operations with ENOSPC/EIO/EDQUOT/EFBIG/EACCES, or fails or shortens its reads of the output that is already there, or replays a prefix of the record under a disk model that loses or tears unflushed writes (power loss); each time the output must hold the old or the complete new content, and a later conversion must succeed. Non-trivial when a fault landed on a storage operation.",
        "distinct (case, format, fault kind, kind of storage operation hit, content found / exception)",
        level="fault_enumeration",
        real=NC,
        stub=["write side of the file system: an LD_PRELOAD shim numbers create/write/truncate/fsync/rename/unlink under the scratch directory, fails or kills at one of them and records the data; after power loss a model of what an ordinary file system keeps (data durable up to fsync, names atomic and in order) replaces the disk"],
        assume=["rename is atomic and name changes reach the disk in order; file data is durable after fsync or fdatasync; sectors are 512 bytes"],
    ),
    "C11": _m(
        "A run draws a directory of 2-6 files, good and damaged in 26 ways, with earlier and spoilt outputs, options, a listing order, API or command line; the batch is compared with converting each file alone, done twice, then disturbed (killed or failing at a storage operation, interrupted at a program step, one failing open/read/allocation) and done again. Non-trivial with more than one file.",
        "distinct (kinds of files, command line or API, in-place output)",
        real=NC,
        stub=["directory listing order: seeded", "write side of the file system: LD_PRELOAD shim as in C10", LINES],
    ),
    "C12": _m(
        "A run draws 1-3 files and 2-4 threads (load, times, header, convert, locate; some failing) and a schedule: either a few switches at drawn steps or a dense random one; then five more schedules of the same threads, each changing hands when a thread comes to a drawn place of the code (every place as likely, however often it is run); real threads run one at a time and change hands only at the drawn steps. Each result is compared with that of the thread alone in a fresh process. Non-trivial when at least one switch happened.",
        "distinct (multiset of operation and format, sequence of switches made) - i.e. interleavings",
        real=NC,
        stub=["thread scheduler: control changes hands only where the schedule says, at georinex source lines or on its locks", LINES],
        assume=["a switch inside compiled code (numpy, netCDF4) is not simulated; georinex's own state is only touched from Python lines"],
    ),
    "C13": _m(
        "A run draws a file, an operation (load, times, header, type; also with output) and one fault - failing open (six errors), failing read, MemoryError at an allocation, little free memory, interruption at a program step, damaged content, invalid call - at a drawn one of the places counted in a dry run; then checks the report, open handles, output directory and that the same operation repeated equals one in a fresh process. Non-trivial when the fault fired.",
        "distinct (format, operation, fault, source kind, container, exception, errno, with output)",
        level="fault_enumeration",
        real=NC,
        stub=[LINES],
    ),
    "C14": _m(
        "A run draws an observation or navigation file, plain or stored in a container, intact, cut or with a failing read, and compares time listing, header and type detection with the truth and with the epochs of a load. Non-trivial when a listing was compared or the read error fired.",
        "distinct (format, version, mode, source kind, container, CRINEX, outcome)",
    ),
    "C15": _m(
        "A run draws 2-7 files, good and damaged in 26 ways, same-named in different directories, streams, converted outputs, and an order; the table of positions or the report of the time command is compared with each file alone and with the truth. Non-trivial with more than one file.",
        "distinct (kind of survey, kinds of files)",
        real=NC + ["pymap3d (the reference for geodetic conversion is the same library)"],
        stub=["directory listing order: seeded", LINES],
    ),
    "C17": _m(
        "A run draws a file, options, a way of giving the path (absolute, relative, from the home directory), an output (none, file, directory, already holding data) and a fault; `georinex.read` or `georinex.time` is run as a program in a process of its own and its exit status, text and output file are compared with what the library call gives and with the truth; then the command is run again with a failing read, open, allocation or disk, or an interruption. Non-trivial when the command was run.",
        "distinct (tool, format, path form, output, earlier content, fault, options given, outcome)",
        real=NC + ["argparse and the tools' own scripts"],
        stub=["write side of the file system: LD_PRELOAD shim as in C10", LINES],
    ),
}
