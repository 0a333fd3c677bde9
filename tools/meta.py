"""Source of properties.jsonl and MANIFEST.json."""

HOOKS = {
    "guard": "DST_SIMOS",
    "enable": "No hook was needed in /repo: the simulated OS is an LD_PRELOAD library the checks load into their own worker processes (environment variable DST_SIMOS names it); /repo carries no instrumentation.",
    "source_commits": [],
}
NOTES = "Every check is one seeded search of the same simulator (dst/). Replays: ./check <id> --replay <file>. See DESIGN.md."

SEED_NOTE = "Seeded search: no exhaustiveness is claimed; a failure is reported with its seed and a minimised replay file."

PROPERTIES = [
    {
        "id": "C01",
        "title": "Text-logger records keep their own timestamp and values",
        "statement": "Every profile in a product converted from raw text-logger files (weather stations, rain gauges, present-weather sensors, disdrometers) carries exactly the values of the one raw record with that timestamp, and every undamaged record of the requested day appears as one profile. A torn, garbled, truncated, blank, duplicated or mis-dated record may cost at most that record (or its damaged values): it never shifts, swaps, alters or removes the values of any other record, whatever the file splitting and delivery order.",
        "quantifier": {"over": ["inputs", "histories", "fault_sequences"], "text": "all record histories of a logger (values, sampling, gaps), all placements of record damage and clock faults, all ways to split the day into files and to order those files"},
        "why_tests_cant": "Unit tests convert a handful of healthy sample files and compare means or metadata; none damages a record at an arbitrary row or compares profile-by-profile with what was logged.",
        "anchors": {
            "files": ["cloudnetpy/instruments/weather_station.py", "cloudnetpy/instruments/disdrometer/parsivel.py", "cloudnetpy/instruments/disdrometer/thies.py", "cloudnetpy/instruments/disdrometer/rd80.py", "cloudnetpy/instruments/fd12p.py", "cloudnetpy/instruments/rain_e_h3.py", "cloudnetpy/disdronator/lpm.py", "cloudnetpy/disdronator/parsivel.py", "cloudnetpy/instruments/toa5.py", "cloudnetpy/instruments/cloudnet_instrument.py"],
            "mechanism": [
                {"name": "row parsers that skip malformed rows", "where": "cloudnetpy/disdronator, cloudnetpy/instruments/toa5.py, weather_station.py"},
                {"name": "sorting, de-duplication and date screening of all time-dependent arrays together", "where": "cloudnetpy/instruments/cloudnet_instrument.py"},
            ],
            "observe_at": ["ws2nc / parsivel2nc / thies2nc / fd12p2nc / rain_e_h32nc / rd802nc output files", "disdronator read functions"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: simulated loggers with record, clock and delivery faults; per-record attribution against the scenario's own record list",
        "level": "exploration",
        "level_note": "Seeded search over logger histories with injected record damage, clock faults and delivery orders on the real converters; oracle is the scenario's record list. " + SEED_NOTE,
    },
    {
        "id": "C02",
        "title": "Lidar and radar profiles keep their own time and height",
        "statement": "Every profile in a product converted from raw lidar, cloud radar, weather radar, precipitation radar or microwave radiometer files carries the measured values of exactly the one raw profile with that timestamp, each at the height of its own range gate, on a strictly increasing time axis without duplicates. Every distinct raw profile of the requested day appears, whatever the number and order of the files, the order in which a directory lists them, and repeated or out-of-order timestamps within and across files.",
        "quantifier": {"over": ["inputs", "histories", "fault_sequences", "configurations"], "text": "all histories of profiles of an instrument (values, timing, repeated and backward clock readings), all splits into files, delivery orders and directory listing orders, all supported storage layouts"},
        "why_tests_cant": "Unit tests convert one or two sample days with files in one order and check metadata and shapes; none shuffles the files or repeats timestamps and compares each output profile and gate with the raw one.",
        "anchors": {
            "files": ["cloudnetpy/instruments/mira.py", "cloudnetpy/instruments/copernicus.py", "cloudnetpy/instruments/galileo.py", "cloudnetpy/instruments/basta.py", "cloudnetpy/instruments/bowtie.py", "cloudnetpy/instruments/rpg.py", "cloudnetpy/instruments/mrr.py", "cloudnetpy/instruments/lufft.py", "cloudnetpy/instruments/cl61d.py", "cloudnetpy/instruments/ceilo.py", "cloudnetpy/instruments/vaisala.py", "cloudnetpy/instruments/pollyxt.py", "cloudnetpy/instruments/da10.py", "cloudnetpy/instruments/weather_radar.py", "cloudnetpy/instruments/hatpro.py", "cloudnetpy/instruments/radiometrics.py", "cloudnetpy/instruments/nc_radar.py", "cloudnetpy/instruments/nc_lidar.py", "cloudnetpy/concat_lib.py"],
            "mechanism": [
                {"name": "concatenation, sorting and de-duplication of all time-dependent arrays together", "where": "cloudnetpy/concat_lib.py, cloudnetpy/instruments/cloudnet_instrument.py"},
                {"name": "per-instrument profile readers", "where": "cloudnetpy/instruments/*.py"},
            ],
            "observe_at": ["output files of mira2nc, copernicus2nc, galileo2nc, basta2nc, bowtie2nc, rpg2nc, mrr2nc, ceilo2nc, pollyxt2nc, da102nc, weather_radar2nc, hatpro2nc, radiometrics2nc"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: simulated instruments with clock, delivery, listing-order and file-split faults; per-profile, per-gate attribution against the scenario's own profile list",
        "level": "exploration",
        "level_note": "Seeded search over profile histories x file splits x orders on 22 real converters; oracle is the scenario's profile list. RPG binary decoding (rpgpy) is stubbed. " + SEED_NOTE,
    },
    {
        "id": "C03",
        "title": "A daily product holds the requested day and nothing else",
        "statement": "Converting raw instrument files for a given day yields a product whose date, time reference and profiles belong to that day only, with all the profiles of that day, also when the files cross midnight or hold other days. If no raw record belongs to the requested day, the conversion fails with the library's documented error and leaves no output file; if no date is given, the date is that of the data.",
        "quantifier": {"over": ["inputs", "histories", "fault_sequences"], "text": "all histories of records around midnight or from other days, all splits over files and delivery orders, with and without a requested date"},
        "why_tests_cant": "Sample files in the tests hold one well-formed day; midnight crossings, days without data and other days mixed in occur for few instruments and only at fixed places.",
        "anchors": {
            "files": ["cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/utils.py", "cloudnetpy/instruments/ceilo.py", "cloudnetpy/instruments/mrr.py", "cloudnetpy/instruments/disdrometer/rd80.py", "cloudnetpy/instruments/weather_radar.py", "cloudnetpy/instruments/weather_station.py", "cloudnetpy/output.py"],
            "mechanism": [
                {"name": "date screening and conversion of time to fraction of the day", "where": "cloudnetpy/instruments/cloudnet_instrument.py, cloudnetpy/utils.py seconds2hours"},
                {"name": "ValidTimeStampError when nothing is left", "where": "cloudnetpy/exceptions.py"},
            ],
            "observe_at": ["output file of every instrument converter", "raised exception type", "existence of the output file"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: simulated instruments running across midnight, silent days and undated deliveries; attribution oracle per requested day",
        "level": "exploration",
        "level_note": "Seeded search over record histories around midnight and on other days for every instrument converter; oracle is the scenario's record list folded on each requested day. " + SEED_NOTE,
    },
    {
        "id": "C04",
        "title": "A corrupt raw file costs at most its own records",
        "statement": "When one or more of the several raw files of a day are empty, truncated, replaced by foreign content or have unreadable blocks, conversion either succeeds with all profiles of every intact file unaltered, or fails only if no intact file holds data of that day. A damaged file never alters the profiles of other files, and whatever profiles it still contributes are its own.",
        "quantifier": {"over": ["inputs", "fault_sequences"], "text": "all subsets of damaged files with at least one intact, all damage kinds and positions, all delivery and listing orders"},
        "why_tests_cant": "Tests contain at most one fixed corrupt sample per instrument; they do not damage arbitrary files at arbitrary offsets in arbitrary order.",
        "anchors": {
            "files": ["cloudnetpy/concat_lib.py", "cloudnetpy/instruments/mira.py", "cloudnetpy/instruments/hatpro.py", "cloudnetpy/instruments/rpg.py", "cloudnetpy/instruments/weather_radar.py", "cloudnetpy/instruments/pollyxt.py", "cloudnetpy/instruments/ceilo.py"],
            "mechanism": [
                {"name": "skip-and-warn loops over raw files", "where": "cloudnetpy/concat_lib.py, cloudnetpy/instruments/*.py"},
            ],
            "observe_at": ["output files and exceptions of the multi-file converters"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: file damage (empty, truncation, garbage, foreign content, bit rot) injected into simulated deliveries; attribution oracle over the intact files",
        "level": "exploration",
        "level_note": "Seeded search over file damage for 16 multi-file converters. A refusal is accepted when the first file by name is the bit-rotted one (its layout is then unreadable). " + SEED_NOTE,
    },
    {
        "id": "C05",
        "title": "Concatenation loses, invents and moves nothing",
        "statement": "concatenate_files and bundle_netcdf_files produce one file that holds every profile of every readable input exactly once, in the order of the file names, each value with its physical meaning (time in one reference, packed values decoded, missing values missing, each value at the height of its own range gate, gates beyond the first file's axis masked); the returned list names exactly the inputs whose data are in the output. Text concatenation is byte-exact. An unreadable input costs its own data only; an I/O error while writing is reported, never mistaken for a bad input.",
        "quantifier": {"over": ["inputs", "configurations", "fault_sequences"], "text": "all sequences of input files with their own range axes, packing, fill values, time references and variables, any delivery order, any damaged subset, any read or write error position"},
        "why_tests_cant": "Tests concatenate a few files of one instrument with one configuration and no I/O errors; configuration changes during the day and disk errors at arbitrary operations are not sampled.",
        "anchors": {
            "files": ["cloudnetpy/concat_lib.py"],
            "mechanism": [
                {"name": "_Concat: per-file variable concatenation, range-axis matching, time reference conversion", "where": "cloudnetpy/concat_lib.py"},
                {"name": "bundle_netcdf_files, concatenate_text_files", "where": "cloudnetpy/concat_lib.py"},
            ],
            "observe_at": ["output file and returned list of concatenate_files, bundle_netcdf_files, concatenate_text_files"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: instrument restarts with changed configuration, damaged and shuffled deliveries, simulated disk errors; oracle is the scenario's own profile list",
        "level": "exploration",
        "level_note": "Seeded search over configuration histories x delivery orders x read/write error positions on the real concatenation code; oracle computed from the scenario. " + SEED_NOTE,
    },
    {
        "id": "C06",
        "title": "A file that grows by appends holds every newer profile once",
        "statement": "After any sequence of update_nc appends, the growing file holds its first content followed by every profile newer than the newest one present at each append, exactly once and in order, with the values that were delivered. 1 is returned exactly when profiles were added. An append that fails or is refused (damaged, unreadable or differently laid out new file) leaves the growing file unchanged and readable.",
        "quantifier": {"over": ["inputs", "histories", "fault_sequences"], "text": "all append histories: new, overlapping, repeated, older and unsorted deliveries, changed time reference, packing and layout, missing variables, damage and read errors at any position"},
        "why_tests_cant": "The tests append two fixed files; histories of appends, overlaps and failures in the middle of an append are not sampled.",
        "anchors": {
            "files": ["cloudnetpy/concat_lib.py"],
            "mechanism": [{"name": "update_nc", "where": "cloudnetpy/concat_lib.py"}],
            "observe_at": ["content of the growing file and return value of update_nc after each append"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: append histories with delivery faults, file damage and simulated read errors, checked step by step against a reference model of the growing file",
        "level": "exploration",
        "level_note": "Seeded search over append histories on the real update_nc and netCDF library, refinement against a list-of-profiles model after every append. " + SEED_NOTE,
    },
    {
        "id": "C07",
        "title": "Accumulated precipitation survives resets, gaps and disorder",
        "statement": "The accumulated precipitation amount in a converted gauge, weather station or present-weather product starts at zero, never decreases, and between any two records grows by exactly the amount the gauge collected between them, also when the gauge counter resets (any number of times), when readings are missing or damaged, when records are duplicated or delivered out of order, and across file boundaries.",
        "quantifier": {"over": ["inputs", "histories", "fault_sequences"], "text": "all rain histories, all positions of counter resets, missing, damaged, duplicated and out-of-order readings"},
        "why_tests_cant": "Tests check the normalisation of a few fixed arrays and sample files; not arbitrary placements of resets relative to gaps and disorder in the whole converter.",
        "anchors": {
            "files": ["cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/instruments/weather_station.py", "cloudnetpy/instruments/fd12p.py", "cloudnetpy/instruments/rain_e_h3.py"],
            "mechanism": [{"name": "normalize_cumulative_amount / calculate_rainfall_amount", "where": "cloudnetpy/instruments/cloudnet_instrument.py, cloudnetpy/instruments/weather_station.py"}],
            "observe_at": ["rainfall_amount / precipitation_amount in the output of ws2nc, fd12p2nc, rain_e_h32nc"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: simulated gauges with counter resets, missing and damaged readings and delivery disorder; conservation against the scenario's own rain history",
        "level": "exploration",
        "level_note": "Seeded search over rain histories x reset and gap placements on the real converters; oracle is conservation of the collected amount. " + SEED_NOTE,
    },
    {
        "id": "C08",
        "title": "What was processed before changes nothing",
        "statement": "The file an operation writes depends only on its own inputs and arguments: processing the same inputs gives the same content whatever was processed before in the same process (other instruments, sites, days or products, failed or repeated attempts, an earlier version of the same input files), and an output that could not be written because of a disk error is written in full by the next attempt.",
        "quantifier": {"over": ["histories", "inputs", "fault_sequences"], "text": "all sequences of conversions, concatenations and product generations in one process, with repeats, replaced inputs, failing inputs and disk errors"},
        "why_tests_cant": "Each test runs one operation; test processes never compare the result of an operation after a history with the result of the same operation in a pristine process.",
        "anchors": {
            "files": ["cloudnetpy/instruments/instruments.py", "cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/instruments/pollyxt.py", "cloudnetpy/instruments/ceilo.py", "cloudnetpy/metadata.py", "cloudnetpy/output.py", "cloudnetpy/categorize/categorize.py", "cloudnetpy/utils.py"],
            "mechanism": [
                {"name": "module level tables (instruments, attributes, caches) shared by all operations of a process", "where": "cloudnetpy/instruments/instruments.py, cloudnetpy/metadata.py, cloudnetpy/categorize/attributes, cloudnetpy/products"},
                {"name": "writing of the output file", "where": "cloudnetpy/output.py, cloudnetpy/utils.py replace_when_complete"},
            ],
            "observe_at": ["content of every output file after a history vs. from a pristine process"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: seeded histories of operations in one process with failures and disk errors in between; refinement against the same operation in a pristine process",
        "level": "exploration",
        "level_note": "Seeded search over operation histories on the real library; the oracle is the real code itself in a forked pristine process, so it judges independence of history and not correctness (that is C01-C07, C15, C16). A crash of the HDF5 library on a failing disk ends the run without a verdict. " + SEED_NOTE,
    },
    {
        "id": "C09",
        "title": "A failed or killed run never leaves a broken product",
        "statement": "If an operation fails (bad or missing input, disk full, I/O error, out of memory, interrupt) or its process is killed at any point, the output path afterwards holds exactly what it held before the run (the earlier complete product, or nothing), or the complete new product; never a partial, mixed or unreadable file.",
        "quantifier": {"over": ["crash_points", "fault_sequences", "inputs"], "text": "all operations, all points at which a write fails, tears or the process dies, with and without an earlier product at the output path"},
        "why_tests_cant": "No test kills a run or lets a write fail; the existing tests look at complete outputs of successful runs.",
        "anchors": {
            "files": ["cloudnetpy/output.py", "cloudnetpy/utils.py", "cloudnetpy/concat_lib.py", "cloudnetpy/categorize/categorize.py", "cloudnetpy/instruments/hatpro.py", "cloudnetpy/products/mwr_tools.py", "cloudnetpy/products/epsilon_lidar.py"],
            "mechanism": [{"name": "temporary file in the output folder, renamed when complete", "where": "cloudnetpy/utils.py replace_when_complete"}],
            "observe_at": ["content of the output path after the failed or killed run"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: simulated disk (full disk, I/O error, short and torn writes), process kill at an arbitrary write, interrupt and failed allocation at an arbitrary call; before/after comparison of the output path",
        "level": "exploration",
        "level_note": "Seeded search over operations x fault kinds x fault positions; the process really dies and only what reached the simulated disk survives. Loss of unsynced pages at a power failure is not modelled. " + SEED_NOTE,
    },
    {
        "id": "C10",
        "title": "A run that reports success has written the whole product",
        "statement": "When an operation returns normally, its output file holds the complete product, equal to that of an undisturbed run, whatever disk errors, short writes, read errors, interrupts or failed allocations happened during the run: an error is either reported to the caller or without effect. The only data that may be missing are those of raw files the operation could not read.",
        "quantifier": {"over": ["fault_sequences", "inputs"], "text": "all operations, all positions of write, read and allocation failures"},
        "why_tests_cant": "No test makes reads, writes or allocations fail, so an error handler that swallows one is never executed.",
        "anchors": {
            "files": ["cloudnetpy/output.py", "cloudnetpy/concat_lib.py", "cloudnetpy/instruments", "cloudnetpy/categorize/categorize.py", "cloudnetpy/products"],
            "mechanism": [{"name": "exception handlers around reading, concatenating and writing", "where": "cloudnetpy/concat_lib.py, cloudnetpy/instruments/*.py, cloudnetpy/output.py"}],
            "observe_at": ["output file of every operation that returned"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: error faults of the simulated disk, interrupts and failed allocations at arbitrary points; content comparison with the undisturbed run",
        "level": "exploration",
        "level_note": "Seeded search over operations x error kinds x positions; oracle is the undisturbed run of the same operation. Single write errors on netCDF outputs are injected as persistent ones because the netCDF4 binding ignores some return codes. " + SEED_NOTE,
    },
    {
        "id": "C11",
        "title": "Runs leave inputs untouched and no litter behind",
        "statement": "No operation modifies, moves or deletes its input files, whether it succeeds or fails. Afterwards the output folder contains the output file and nothing else new, and the temporary folder is as it was; after a successful run or a failure inside the library no file stays open.",
        "quantifier": {"over": ["fault_sequences", "inputs", "histories"], "text": "all operations on good, damaged, missing and unreadable inputs, with errors and interrupts at any point"},
        "why_tests_cant": "Tests run in temporary folders that are thrown away, and do not look at inputs, leftovers or descriptors after failures.",
        "anchors": {
            "files": ["cloudnetpy/concat_lib.py", "cloudnetpy/output.py", "cloudnetpy/utils.py", "cloudnetpy/instruments", "cloudnetpy/datasource.py"],
            "mechanism": [{"name": "temporary files and context managers", "where": "cloudnetpy/instruments/*.py, cloudnetpy/concat_lib.py, cloudnetpy/utils.py"}],
            "observe_at": ["input folder digest", "listing of output and temporary folders", "/proc/self/fd of the simulated process"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: error, read and interrupt faults at arbitrary points of every operation; before/after state of input, output and temporary folders and of open descriptors",
        "level": "exploration",
        "level_note": "Seeded search over operations x fault kinds x positions. Descriptors that the netCDF library itself leaks when a read or write fails are not judged. A killed process may leave its temporary file. " + SEED_NOTE,
    },
    {
        "id": "C12",
        "title": "A command-line run processes the right data however downloads finish",
        "statement": "The files that one `cloudnetpy` run leaves depend only on what the portal lists and on the arguments, never on the order or speed in which parallel downloads and requests finish. A successful run leaves exactly the requested products that can be made, in the documented folders, each made from all raw files of its own site, date and selected instrument and from the right source products (local ones first, then the portal's in the documented order of preference), with raw files complete. With --dl it only downloads.",
        "quantifier": {"over": ["schedules", "inputs", "configurations"], "text": "all thread interleavings of the parallel downloads and metadata requests, all portal inventories and command lines"},
        "why_tests_cant": "The CLI has no offline tests; its threads, sorting and source selection see one portal inventory and one schedule per run.",
        "anchors": {
            "files": ["cloudnetpy/cli.py"],
            "mechanism": [{"name": "ThreadPoolExecutor fetches and downloads, instrument and source selection, sorting and concatenation of raw files", "where": "cloudnetpy/cli.py"}],
            "observe_at": ["output folder tree and contents after cli.main", "requests seen by the simulated portal", "exit status"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: simulated portal and client, seeded scheduler of the tool's worker threads; differential against the sequential schedule and an explicit plan oracle",
        "level": "exploration",
        "level_note": "Seeded search over interleavings (switches at every network operation and at random lines of cli.py), inventories and arguments. The HTTP client library is a stub with its documented behaviour. " + SEED_NOTE,
    },
    {
        "id": "C13",
        "title": "Command-line runs recover from failures and never lose or fake files",
        "statement": "When requests, downloads, the disk or the process fail in the middle of a `cloudnetpy` run, every product file in the output folder is either the complete earlier or the complete new one, none is lost, no temporary file remains of a run that was able to clean up, and the tool does not report success for a product it did not write. Once the failures stop, running the same command again gives exactly the products that a run in a fresh folder gives for what the portal lists then.",
        "quantifier": {"over": ["fault_sequences", "histories", "crash_points", "schedules"], "text": "all histories of runs, of portal changes between them, and of network faults, disk errors, kills and interrupts within them"},
        "why_tests_cant": "No test kills the tool, fails its downloads or runs it again in the folder a failed run left behind.",
        "anchors": {
            "files": ["cloudnetpy/cli.py", "cloudnetpy/output.py"],
            "mechanism": [{"name": "download, decompression, processing and placing of files; error handling per product", "where": "cloudnetpy/cli.py"}, {"name": "atomic write of outputs", "where": "cloudnetpy/output.py"}],
            "observe_at": ["output folder tree after each run", "temporary folder", "log and exit status", "comparison with a run in a fresh folder"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: histories of CLI runs over a simulated portal, network, disk and scheduler with seeded faults, kills and interrupts; convergence to the fault-free run once faults stop",
        "level": "exploration",
        "level_note": "Seeded search over histories, faults and interleavings; disk faults enter below libc in the real process, network faults in the stub client. Litter is not judged after kills or while the disk refuses to unlink. " + SEED_NOTE,
    },
    {
        "id": "C15",
        "title": "Categorize neither fills outages nor moves data in time or height",
        "statement": "The categorize file has exactly the 30-second steps of the day where the radar measured a profile, a valid lidar profile exists within one minute and the model covers the time; an outage of any of them is never bridged with invented time steps. At each step, reflectivity and Doppler velocity come only from the radar profiles of that step and gate (reflectivity plus the attenuations the file itself reports), backscatter from the nearest valid lidar profile within one minute and one gate, liquid water path from microwave radiometer samples within two minutes, rainfall rate from disdrometer samples within one minute; what was not measured stays missing. With fewer than two common steps, or fewer than two usable model profiles, categorize raises the documented error and leaves no file.",
        "quantifier": {"over": ["inputs", "histories", "fault_sequences", "configurations"], "text": "all outage, blank-profile and jitter histories of radar, lidar, microwave radiometer, disdrometer and model, all instrument combinations and range grids"},
        "why_tests_cant": "The tests categorize small hand-made arrays and one sample day; outages and blank profiles of each instrument at arbitrary times relative to each other are not sampled.",
        "anchors": {
            "files": ["cloudnetpy/categorize/categorize.py", "cloudnetpy/categorize/radar.py", "cloudnetpy/categorize/lidar.py", "cloudnetpy/categorize/mwr.py", "cloudnetpy/categorize/model.py", "cloudnetpy/categorize/disdrometer.py", "cloudnetpy/categorize/droplet.py", "cloudnetpy/categorize/freezing.py", "cloudnetpy/categorize/melting.py", "cloudnetpy/utils.py", "cloudnetpy/datasource.py"],
            "mechanism": [
                {"name": "rebinning and nearest-neighbour interpolation to the common grid with gap limits", "where": "cloudnetpy/utils.py rebin_1d, rebin_2d, interpolate_2d_nearest, interpolate_1d; cloudnetpy/categorize/*.py"},
                {"name": "screening of time steps without radar, lidar or model data", "where": "cloudnetpy/categorize/categorize.py"},
            ],
            "observe_at": ["categorize file written by generate_categorize", "raised exception type", "existence of the output file"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: a simulated site (radar, lidar, radiometer, disdrometer, model) with instrument outages, blank profiles, jitter and model gaps; values carry their own time and height, attribution oracle over the scenario",
        "level": "exploration",
        "level_note": "Seeded search over outage histories on the real categorize chain; the instruments and the model are scenario-driven writers of Level 1b files. Backscatter between the last valid lidar profile and the end of the screened window may be missing (documented in interpolate_2d_nearest). " + SEED_NOTE,
    },
    {
        "id": "C16",
        "title": "Level 2 products describe the same pixels as their categorize file",
        "statement": "Classification, ice water content, ice effective radius, liquid water content and droplet effective radius products made from one categorize file have exactly its time and height axes and date, and the value and retrieval status of every pixel follow from that same pixel of the categorize file: its classification bits, its own reflectivity and temperature, its own profile's liquid water path and rain flag. A retrieval status and a value never contradict each other, data the categorize file lacks are never retrieved, and a product whose sources are missing is refused with the documented error and leaves no file.",
        "quantifier": {"over": ["inputs", "histories", "fault_sequences", "configurations"], "text": "all sites histories with outages, blank profiles, rain, melting, missing radiometer samples and instrument combinations"},
        "why_tests_cant": "Unit tests run each retrieval on small hand-made arrays or check one sample file's metadata; alignment of products with categorize files full of gaps is not sampled.",
        "anchors": {
            "files": ["cloudnetpy/products/classification.py", "cloudnetpy/products/iwc.py", "cloudnetpy/products/ier.py", "cloudnetpy/products/lwc.py", "cloudnetpy/products/der.py", "cloudnetpy/products/product_tools.py", "cloudnetpy/categorize/classify.py"],
            "mechanism": [{"name": "per-pixel retrieval and retrieval status", "where": "cloudnetpy/products/*.py"}, {"name": "interpolation of the model to the categorize grid", "where": "cloudnetpy/products/product_tools.py interpolate_model"}],
            "observe_at": ["files written by generate_classification, generate_iwc, generate_ier, generate_lwc, generate_der"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: the simulated site of C15 run through the whole Level 1b -> categorize -> product chain with outages, missing sources and rain; per-pixel consistency oracle between the files",
        "level": "exploration",
        "level_note": "Seeded search over site histories through the real chain; the oracle recomputes alignment, status and range of each pixel from the categorize file, not the retrieval coefficients' physics. generate_drizzle cannot run here (its lookup table is not in the repository). " + SEED_NOTE,
    },
    {
        "id": "C17",
        "title": "Model evaluation compares each model cell with its own observations",
        "statement": "In a Level 3 product every model time and level below the altitude limit appears once, with the model's own values, and the downsampled observations of a cell are the mean (or cloudy-column fraction) of exactly the valid observations that lie nearest to that model time and within that level's own layer, or, for the advection variant, within the time the air takes to cross the grid box; observation and model heights refer to the same altitude. A cell in which nothing was observed is missing, never zero. Missing model steps, model wind or observations change only the cells they belong to. An existing file is replaced only on request, and a refused run changes nothing.",
        "quantifier": {"over": ["inputs", "histories", "fault_sequences", "configurations"], "text": "all outage histories of the observations, missing model steps, winds and values, site and model surface altitudes, level structures and products (cf, iwc, lwc)"},
        "why_tests_cant": "The tests evaluate one sample day and hand-made 4 by 4 grids; observation outages, missing model steps and elevated sites relative to arbitrary cells are not sampled.",
        "anchors": {
            "files": ["cloudnetpy/model_evaluation/products/grid_methods.py", "cloudnetpy/model_evaluation/products/tools.py", "cloudnetpy/model_evaluation/products/observation_products.py", "cloudnetpy/model_evaluation/products/model_products.py", "cloudnetpy/model_evaluation/products/product_resampling.py", "cloudnetpy/model_evaluation/file_handler.py"],
            "mechanism": [{"name": "time and height windows of each model cell, averaging", "where": "cloudnetpy/model_evaluation/products/grid_methods.py ProductGrid, tools.py"}, {"name": "level cut and model fields", "where": "cloudnetpy/model_evaluation/products/model_products.py"}],
            "observe_at": ["file written by process_L3_day_product", "raised exception type", "content of the output path after a refused run"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: simulated observation and model histories with outages, missing model steps and missing values; per-cell recomputation from the scenario's own pixels",
        "level": "exploration",
        "level_note": "Seeded search over outage histories on the real evaluation code; oracle recomputes each cell from the scenario. The physics of the cirrus filter is not judged. " + SEED_NOTE,
    },
    {
        "id": "C14",
        "title": "Every file says truthfully what it was made from and when",
        "statement": "Every file carries the identifier that was asked for, or else a fresh one, and the caller is told exactly that identifier. source_file_uuids, source, source_instrument_pids and the source of each categorize variable name exactly the files and instruments that were used, never one that was set aside. The history starts with one new record stamped with the time of the run, followed by every history line of the sources exactly once, newest first (of a model file the last line). Date, location and file type are those of the data. All of this holds whatever the clock says and however often or in whatever order files are made.",
        "quantifier": {"over": ["histories", "inputs", "configurations", "fault_sequences"], "text": "all orders and repetitions of operations, all clock jumps, host time zones, history shapes (missing, malformed, repeated, shared lines), instrument combinations, unusable sources and identifier arguments"},
        "why_tests_cant": "Tests check attributes of single files made at one moment from clean sample files; clock jumps, odd histories, shared instruments, unusable sources and regenerated files are not sampled.",
        "anchors": {
            "files": ["cloudnetpy/output.py", "cloudnetpy/categorize/categorize.py", "cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/model_evaluation/file_handler.py", "cloudnetpy/products", "cloudnetpy/utils.py"],
            "mechanism": [{"name": "merge_history, get_source_uuids, add_source_instruments, add_source_attributes", "where": "cloudnetpy/output.py"}, {"name": "get_uuid, get_time", "where": "cloudnetpy/utils.py"}],
            "observe_at": ["global and variable attributes of every output file", "returned identifier"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: histories of operations over a simulated site with clock jumps, time zones, odd provenance of the sources, unusable sources and repeats; exact expectation of every provenance attribute from the scenario",
        "level": "exploration",
        "level_note": "Seeded search over operation histories on the real converters, categorize, Level 2, epsilon and Level 3 code. " + SEED_NOTE,
    },
    {
        "id": "C18",
        "title": "Turbulence products use continuous velocities of their own place and time only",
        "statement": "A dissipation rate is given only where the Doppler velocities of that averaging window and gate were continuous (for the radar product: less than 10 % of the five minutes missing, whether velocities or whole profiles are missing), and it follows from exactly those velocities, at that height, and from the horizontal wind of that time and height. Missing velocities, missing profiles and missing winds change only the windows and gates that need them; a source without missing values is as good as one with some. Without usable winds there are no values: the product is refused, with no file left, or empty. Time and height axes are those of the measurement.",
        "quantifier": {"over": ["histories", "inputs", "configurations"], "text": "all outage histories of the Doppler velocities, all placements of missing velocities and winds, sampling intervals, site and model surface altitudes, times of the day"},
        "why_tests_cant": "The radar product has no test that runs it and the lidar product is tested on one sample; outages and gaps at arbitrary places of the window, and complete or fully missing fields, are not sampled.",
        "anchors": {
            "files": ["cloudnetpy/products/epsilon_radar.py", "cloudnetpy/products/epsilon_lidar.py"],
            "mechanism": [{"name": "averaging windows, gap criterion, spectrum and wind interpolation", "where": "cloudnetpy/products/epsilon_radar.py"}, {"name": "reading of velocities and winds with their masks", "where": "cloudnetpy/products/epsilon_lidar.py"}],
            "observe_at": ["files written by generate_epsilon_from_radar and generate_epsilon_from_lidar", "raised exception"],
            "hook_needed": None,
        },
        "technique": "deterministic simulation: simulated Doppler radar and lidar with outages and missing velocities, winds with gaps; recomputation of each window from the scenario and locality against the gap-free run",
        "level": "exploration",
        "level_note": "Seeded search over outage histories on the real code. Windows with 80 to 100 % of the velocities are judged for locality only. The doppy retrieval itself is a dependency, compared with itself on the gap-free history. " + SEED_NOTE,
    },
]

PURE = "pure function of one array or constant table: no schedule, clock, I/O, fault or history for a simulation to vary; "
PROPERTIES += [
    {
        "id": "N01",
        "title": "Retrieval and classification formulas give the documented physical values",
        "statement": "Target classification bits, droplet, freezing, insect, melting and falling detection, gas and liquid attenuation, ice and liquid water retrieval coefficients and drizzle retrieval give the values of the cited publications for any atmospheric column.",
        "quantifier": {"over": ["inputs"], "text": "all atmospheric columns"},
        "why_tests_cant": "Tests sample a few columns.",
        "anchors": {"files": ["cloudnetpy/categorize", "cloudnetpy/products"], "mechanism": [{"name": "physical formulas", "where": "cloudnetpy/categorize, cloudnetpy/products"}], "observe_at": ["categorize and product values"], "hook_needed": None},
        "na": PURE + "an oracle would be a second implementation of the physics compared point by point, which is differential testing and not simulation (alignment, missing data and status of the same pixels are C15 and C16); generate_drizzle cannot run at all because its lookup table is not in the repository",
    },
    {
        "id": "N02",
        "title": "Units, attributes and status definitions conform to the documented conventions",
        "statement": "Every variable of every product has the units, standard name, dimensions and status definitions of the Cloudnet data format.",
        "quantifier": {"over": ["inputs"], "text": "all products"},
        "why_tests_cant": "Tests check listed attributes of sample files.",
        "anchors": {"files": ["cloudnetpy/metadata.py", "cloudnetpy/output.py"], "mechanism": [{"name": "attribute tables", "where": "cloudnetpy/metadata.py"}], "observe_at": ["variable attributes"], "hook_needed": None},
        "na": PURE + "a static table comparison; that earlier operations cannot change these tables is C08",
    },
    {
        "id": "N03",
        "title": "Figures show the data of the product",
        "statement": "generate_figure draws the values of the requested variables at their time and height with the documented scales.",
        "quantifier": {"over": ["inputs"], "text": "all products and plotting options"},
        "why_tests_cant": "Tests only check that a figure is made.",
        "anchors": {"files": ["cloudnetpy/plotting/plotting.py"], "mechanism": [{"name": "Plot2D, Plot1D", "where": "cloudnetpy/plotting/plotting.py"}], "observe_at": ["image files"], "hook_needed": None},
        "na": PURE + "the observable is a rendered image and there is no executable oracle for its correctness",
    },
]
