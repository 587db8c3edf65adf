# Harnesses (programs) and checks (which programs decide which property, with what bounds)
HARNESS = {
    "c01_pulse": dict(src="c01_pulse.c", variant="plain", inst=["RKPulseEngine.c"]),
}
HARNESS["c02_compress"] = dict(src="c02_compress.c", variant="asan")
CHECKS = {
    "C01": dict(level="model_checking", technique="stateless model checking of the real engine under a controlled scheduler (delay-bounded exhaustive schedule enumeration)",
        note="Every schedule of producer, watcher, workers and consumer within the stated deviation bound, on the real code with coroutines in place of threads; sequentially consistent memory.",
        runs=[dict(h="c01_pulse", params=dict(stalls=2), quick=dict(bound=1), thorough=dict(bound=2, params=dict(stalls=1), time=900)), dict(h="c01_pulse", params=dict(blocking=0, stalls=1), quick=dict(bound=1)), dict(h="c01_pulse", params=dict(deep=1, stalls=1), quick=dict(bound=1))],
        rule="one execution = one configuration and one schedule; distinct outcomes differ in configuration, end time or skipped pulses",
        assumptions=["sequentially consistent memory at the watched words", "threads run until they block or reach a scheduling point"]),
    "C02": dict(level="exploration", technique="bounded exhaustive enumeration of filter layouts, executed on the real engine against a direct-sum reference",
        note="Every filter layout, gate count, data type and down-sampling ratio of the stated grid is run through the real engine (address sanitizer on) and compared with direct correlation.",
        runs=[dict(h="c02_compress")],
        rule="one execution = one filter layout x data type x down-sampling x worker count over 44 pulses; evaluations are compared gates; distinct outcomes are distinct outputs",
        assumptions=["linear operation: generic and impulse inputs stand for all inputs", "tolerance 0.11 on values up to 4000"]),
}
NOT_CLAIMED = {}
HARNESS["c03_ring"] = dict(src="c03_ring.c", variant="plain", inst=["RKPulseRingFilter.c"])
HARNESS["c03_ring_asan"] = dict(src="c03_ring.c", variant="asan")
CHECKS["C03"] = dict(level="model_checking", technique="stateless model checking of the real engine under a controlled scheduler (delay-bounded), plus exhaustive enumeration of gate partitions",
    note="Every schedule of producer, watcher, workers and consumer within the deviation bound, and every partition of the stated grid with address sanitizer, each gate compared with the difference equation.",
    runs=[dict(h="c03_ring", params=dict(stalls=2), quick=dict(bound=1), thorough=dict(bound=2, time=900, params=dict(stalls=1))), dict(h="c03_ring_asan", params=dict(wide=1), quick=dict(bound=0))],
    rule="one execution = one configuration and one schedule", assumptions=["sequentially consistent memory at the watched words", "the filtered range does not change while pulses are in flight"])
HARNESS["c04_position"] = dict(src="c04_position.c", variant="plain", inst=["RKPositionEngine.c"])
HARNESS["c04_position_asan"] = dict(src="c04_position.c", variant="asan")
CHECKS["C04"] = dict(level="model_checking", technique="stateless model checking of the real tagger: delay-bounded schedules, plus exhaustive enumeration of pulse/position histories against a reference interpolation",
    note="Every interleaving of pulse and position producers, tagger and consumer within the deviation bound on four histories; every history of the stated grids on the default schedule.",
    runs=[dict(h="c04_position", params=dict(stalls=2), quick=dict(bound=1), thorough=dict(bound=2, time=900, params=dict(stalls=1))), dict(h="c04_position_asan", params=dict(wide=1), quick=dict(bound=0)), dict(h="c04_position", params=dict(wide=2), quick=dict(bound=0))],
    rule="one execution = one history of pulses and positions and one schedule; evaluations are tagged pulses", assumptions=["sequentially consistent memory at the watched words", "pulse and position times increase", "neither ring is lapped"])
ENG = ["RKPulseEngine.c", "RKPulseRingFilter.c", "RKPositionEngine.c", "RKMomentEngine.c", "RKSweepEngine.c", "RKHealthEngine.c", "RKHealthLogger.c", "RKRawDataRecorder.c", "RKSteerEngine.c", "RKFileManager.c"]
HARNESS["c07_stop"] = dict(src="c07_stop.c", variant="plain", inst=ENG)
CHECKS["C07"] = dict(level="model_checking", technique="stateless model checking of the real engines under a controlled scheduler (delay-bounded exhaustive schedule enumeration)",
    note="Start, stop, stop again, restart and free of ten engines, with their threads waiting at every stage of data, under every schedule within the deviation bound at accesses of the state word.",
    runs=[dict(h="c07_stop", params=dict(stalls=1), quick=dict(bound=1), thorough=dict(bound=1, params=dict(stalls=3))), dict(h="c07_stop", thorough_only=True, quick=dict(bound=2))],
    rule="one execution = one engine, one call sequence, one data stage and one schedule", assumptions=["sequentially consistent memory at the watched words", "virtual time: sleeping costs no real time"])
HARNESS["c05_ray"] = dict(src="c05_ray.c", variant="plain", inst=["RKMomentEngine.c"])
HARNESS["c05_ray_asan"] = dict(src="c05_ray.c", variant="asan")
CHECKS["C05"] = dict(level="model_checking", technique="stateless model checking of the real engine: delay-bounded schedules, plus exhaustive enumeration of beam/marker histories against a reference grouping",
    note="Every schedule of pulse producer, gatherer, workers, consumer and follower within the deviation bound on four histories; every history of the stated grid (address sanitizer on) on the default schedule.",
    runs=[dict(h="c05_ray", params=dict(stalls=2), quick=dict(bound=1), thorough=dict(bound=2, time=900, params=dict(stalls=1))), dict(h="c05_ray", params=dict(blocking=0, pace=1, stalls=1), quick=dict(bound=1)), dict(h="c05_ray", params=dict(wide=1), quick=dict(bound=0)), dict(h="c05_ray_asan", params=dict(wide=1, few=1), quick=dict(bound=0)), dict(h="c05_ray_asan", params=dict(wide=2), quick=dict(bound=0)), dict(h="c05_ray", params=dict(wide=3), quick=dict(bound=0))],
    rule="one execution = one history of beams and markers and one schedule; evaluations are checked rays", assumptions=["sequentially consistent memory at the watched words", "no ring is lapped", "outside of the known finding, the configuration changes at the first pulse of a sweep"])
HARNESS["c06_sweep"] = dict(src="c06_sweep.c", variant="plain", inst=["RKSweepEngine.c"])
HARNESS["c06_sweep_asan"] = dict(src="c06_sweep.c", variant="asan")
CHECKS["C06"] = dict(level="model_checking", technique="stateless model checking of the real engine: delay-bounded schedules, plus exhaustive enumeration of ray histories against a reference collection",
    note="Every schedule of ray producer, collector, sweep manager and releaser within the deviation bound on four histories; every sequence of sweeps, aborted sweeps and transitions of the stated grids on the default schedule.",
    runs=[dict(h="c06_sweep", params=dict(stalls=2), quick=dict(bound=1), thorough=dict(bound=2, time=900, params=dict(stalls=1)))] + [dict(h="c06_sweep", params=dict(wide=w), quick=dict(bound=0)) for w in (1, 2, 3, 4)],
    rule="one execution = one history of sweeps and one schedule; evaluations are recorded rays", assumptions=["sequentially consistent memory at the watched words", "the ray ring is not lapped"])
HARNESS["c08_config"] = dict(src="c08_config.c", variant="plain", inst=["RKConfig.c"])
HARNESS["c08_config_asan"] = dict(src="c08_config.c", variant="asan")
CHECKS["C08"] = dict(level="model_checking", technique="stateless model checking of the real code: delay-bounded schedules of two changers and a reader, plus exhaustive enumeration of change sequences against a reference model",
    note="Every schedule of two changers and a reader within the deviation bound at every access of the configuration ring; every sequence of changes up to the stated depth over 34 changes, rejected ones included, with address sanitizer.",
    runs=[dict(h="c08_config", quick=dict(bound=2), thorough=dict(bound=3, time=1200)), dict(h="c08_config_asan", params=dict(wide=1, depth=2), quick=dict(bound=0), thorough=dict(bound=0, params=dict(depth=3)))],
    rule="one execution = one sequence of changes and one schedule", assumptions=["sequentially consistent memory", "the ring is not lapped between reading the index and reading the configuration"])
HARNESS["c14_pref"] = dict(src="c14_pref.c", variant="asan")
CHECKS["C14"] = dict(level="exploration", technique="bounded exhaustive enumeration of preference files and query sequences, executed on the real parser against a reference model",
    note="Every file of up to the stated number of lines from an alphabet of 27 line shapes is read by the real code (address sanitizer on) and queried by keyword, in alternation, after an update and as every value type.",
    runs=[dict(h="c14_pref", params=dict(lines=2), quick=dict(bound=0), thorough=dict(bound=0, params=dict(lines=3))), dict(h="c14_pref", params=dict(large=1), quick=dict(bound=0))],
    rule="one execution = one file and all queries on it", assumptions=["a value does not start with '#'", "at most 128 keyword lines and lines of less than 4096 characters"])
HARNESS["c20_json"] = dict(src="c20_json.c", variant="asan")
CHECKS["C20"] = dict(level="exploration", technique="bounded exhaustive enumeration of JSON texts, executed on the real helpers against an independent parser",
    note="Every object of up to the stated number of members over an alphabet of keys and values with escapes, quotes, brackets and nesting, in four layouts, is looked up, iterated and rewritten by the real code (address sanitizer on); every prefix of the texts is read as a damaged text.",
    runs=[dict(h="c20_json", params=dict(members=2), quick=dict(bound=0), thorough=dict(bound=0, params=dict(members=3), time=3000)), dict(h="c20_json", params=dict(long=1), quick=dict(bound=0))],
    rule="one execution = one text; evaluations are calls on it", assumptions=["destinations are at least as large as the text", "keys of less than 256 characters"])
HARNESS["c26_text"] = dict(src="c26_text.c", variant="asan")
CHECKS["C26"] = dict(level="exploration", technique="bounded exhaustive enumeration of subscriptions and texts, executed on the real converters against reference conversions",
    note="Every subscription of up to three (thorough: four) streams, and all but three, for every status page; every text of three characters; lists of numbers, quoted words, product descriptions, paths of up to 7 (thorough: 9) characters, numbers, times and payloads of the stated alphabets (address sanitizer on).",
    runs=[dict(h="c26_text", params=dict(part=p), quick=dict(bound=0), **({"thorough": dict(bound=0, params=t)} if t else {})) for p, t in ((0, dict(deep=1)), (1, None), (2, None), (3, None), (4, dict(length=9)), (5, None), (6, None), (7, None), (8, None), (9, None))],
    rule="one execution = one text or a group of texts (counted as evaluations)", assumptions=["streams without a letter are not part of a subscription"])
HARNESS["c19_clock"] = dict(src="c19_clock.c", variant="asan")
CHECKS["C19"] = dict(level="exploration", technique="bounded exhaustive enumeration of reading histories, executed on the real clock in virtual time",
    note="Every placement of up to three delays in a steady counter, and of up to two troubles out of 15 kinds (restarting, missing, repeating or jumping counter, pauses and steps of the system clock), on clocks with strides 1 to 8; fixed delay patterns on strides of 64 to 1000.",
    runs=[dict(h="c19_clock", params=dict(part=0, calls=6), quick=dict(bound=0), thorough=dict(bound=0, params=dict(calls=12))), dict(h="c19_clock", params=dict(part=1, calls=8), quick=dict(bound=0), thorough=dict(bound=0, params=dict(calls=24, apart=12))), dict(h="c19_clock", params=dict(part=2), quick=dict(bound=0), thorough=dict(bound=0, params=dict(long=400000)))],
    rule="one execution = one history of readings", assumptions=["delays of a steady counter are shorter than its period", "the counter is called from one thread"])
HARNESS["c22_buffer"] = dict(src="c22_buffer.c", variant="asan")
CHECKS["C22"] = dict(level="exploration", technique="bounded exhaustive enumeration of buffer geometries, executed on the real allocators and accessors",
    note="Every capacity from 0 to 129 and some larger ones, every depth from 1 to 5: every area is filled through its accessor and checked for bounds, overlap and alignment (address sanitizer on), every slot taken in turn, copied and cleared; every scratch array, small product buffers and all index arithmetic up to 64 slots.",
    runs=[dict(h="c22_buffer", params=dict(part=p), quick=dict(bound=0)) for p in (2, 3, 4)] + [dict(h="c22_buffer", params=dict(part=p), quick=dict(bound=0), thorough=dict(bound=0, params=dict(caps=2100))) for p in (0, 1)],
    rule="one execution = one geometry; evaluations are areas", assumptions=["vector instructions need 64 bytes of alignment"])
HARNESS["c23_moment"] = dict(src="c23_moment.c", variant="asan")
CHECKS["C23"] = dict(level="exploration", technique="bounded exhaustive enumeration of sample sequences, executed on the real moment processors against double-precision reference formulas",
    note="Every sequence of four (thorough: five) dual-polarisation samples over an alphabet of four, one per gate, through nine processors (address sanitizer on); rays of 4 to 27 pulses with 22 gate counts around the vector width after another ray; every filter layout of the stated grid in the range calibration.",
    runs=[dict(h="c23_moment", params=dict(part=0), quick=dict(bound=0), thorough=dict(bound=0, params=dict(pulses=5))), dict(h="c23_moment", params=dict(part=1), quick=dict(bound=0), thorough=dict(bound=0, params=dict(rays=60))), dict(h="c23_moment", params=dict(part=2), quick=dict(bound=0))],
    rule="one execution = one method and one set of rays; evaluations are gates", assumptions=["quantities are compared where their formula is defined and well-conditioned", "specific phase and the spectral width of the spectral processor are marked as unfinished in the code", "at least four pulses per ray, as the engine guarantees"])
HARNESS["c17_waveform"] = dict(src="c17_waveform.c", variant="asan")
CHECKS["C17"] = dict(level="exploration", technique="bounded exhaustive enumeration of generator parameters, operation sequences, truncations and corruptions, executed on the real waveform code against a reference model",
    note="Every generator over a grid of rates, frequencies, depths and counts; every sequence of three (thorough: four) operations out of copy, conjugate, decimate, append, write and read, down-convert on twelve waveforms; every truncation and every single-byte substitution of the headers of twelve files; address sanitizer on.",
    runs=[dict(h="c17_waveform", params=dict(part=0), quick=dict(bound=0), thorough=dict(bound=0, params=dict(depths=130))), dict(h="c17_waveform", params=dict(part=1), quick=dict(bound=0), thorough=dict(bound=0, params=dict(ops=4))), dict(h="c17_waveform", params=dict(part=2), quick=dict(bound=0)), dict(h="c17_waveform", params=dict(part=3), quick=dict(bound=0))],
    rule="one execution = one generator call, one operation sequence or one file; evaluations are samples or files", assumptions=["waveforms have a filter in every group; one without cannot be read back", "an appended waveform has one group"])
HARNESS["c18_product"] = dict(src="c18_product.c", variant="asan")
CHECKS["C18"] = dict(level="exploration", technique="bounded exhaustive enumeration of products, value assignments, truncations and corruptions, executed on the real writers and readers",
    note="All scan types, seven ray counts and six gate counts over a grid of header contents; every assignment of twelve values (finite, missing, folded, non-finite, extreme) to up to three cells; every truncation and byte substitution of a small file, attributes of other types and lengths, variables of other shapes; sets of sibling files; sweeps of 1 to 360 rays and every set of products; refusals. Address sanitizer on.",
    runs=[dict(h="c18_product", params=dict(part=p), quick=dict(bound=0)) for p in (0, 3, 5)] + [dict(h="c18_product", params=dict(part=1), quick=dict(bound=0), thorough=dict(bound=0, params=dict(shapes=6))), dict(h="c18_product", params=dict(part=2), quick=dict(bound=0), thorough=dict(bound=0, params=dict(values=14))), dict(h="c18_product", params=dict(part=4), quick=dict(bound=0, params=dict(masks=15)), thorough=dict(bound=0))],
    rule="one execution = one product, file or set of files; evaluations are gates or files", assumptions=["the classic NetCDF format, as the build is configured", "a PRF is stored in whole Hz", "times before 2038, as the format stores 32 bits"])
HARNESS["c09_send"] = dict(src="c09_send.c", variant="plain", inst=["RKServer.c"])
CHECKS["C09"] = dict(level="model_checking", technique="stateless model checking of the real senders: exhaustive sequences of results of the socket and delay-bounded schedules of threads that send to one peer",
    note="Every sequence, up to a number of deviations, of what a socket can do with a call (take it all, all but one byte, one byte, any number, refuse once or from now on, be interrupted, fail), for messages of one to three pieces through every sending function; schedules of two or three threads that send whole messages to one peer, over such a socket.",
    runs=[dict(h="c09_send", params=dict(part=0), quick=dict(bound=4), thorough=dict(bound=6)), dict(h="c09_send", params=dict(part=1), quick=dict(bound=2), thorough=dict(bound=3))],
    rule="one execution = one sequence of results or one schedule; evaluations are messages", assumptions=["after a send that failed the stream to that peer is not used further"])
HARNESS["c10_client"] = dict(src="c10_client.c", variant="plain", inst=["RKClient.c"])
HARNESS["c10_server"] = dict(src="c10_server.c", variant="plain", inst=["RKServer.c"])
HARNESS["c10_server_asan"] = dict(src="c10_server.c", variant="asan", cflags=["-DVP_FORK=1"])
HARNESS["c10_client_asan"] = dict(src="c10_client.c", variant="asan", cflags=["-DVP_FORK=1"])
CHECKS["C10"] = dict(level="model_checking", technique="stateless model checking of the real client and server on a scripted network: exhaustive segmentations, cuts and ends of the byte stream, in virtual time, and delay-bounded schedules of stopping",
    note="Streams of messages in every format, and of command lines, are delivered with two cuts at every pair of positions and every choice of gaps, cut off at every byte, in many small pieces, with announced sizes around and beyond the buffer; peers close, reset or stay; handlers are fast and slow; sides are stopped at any time. Everything handed over is compared with what was sent, descriptors and threads are counted.",
    runs=[dict(h="c10_client", params=dict(part=0), quick=dict(bound=0)), dict(h="c10_client", params=dict(part=1), quick=dict(bound=0)), dict(h="c10_client", params=dict(part=2), quick=dict(bound=0)), dict(h="c10_client_asan", params=dict(part=3), quick=dict(bound=0)), dict(h="c10_client", params=dict(part=4), quick=dict(bound=2), thorough=dict(bound=3)),
        dict(h="c10_server", params=dict(part=0), quick=dict(bound=0)), dict(h="c10_server", params=dict(part=1), quick=dict(bound=0)), dict(h="c10_server", params=dict(part=2), quick=dict(bound=1), thorough=dict(bound=2)), dict(h="c10_server_asan", params=dict(part=2), quick=dict(bound=0)), dict(h="c10_server", params=dict(part=3), quick=dict(bound=0))],
    rule="one execution = one segmentation, cut or schedule; evaluations are messages handed over",
    assumptions=["a peer that stalls in the middle of a message for longer than the time-out of the client may lose that connection", "lines shorter than the command buffer and without trailing blanks; empty lines are not commands; a last line without its end may or may not be handed over", "a payload for the server fits into the buffer of the caller"])
HARNESS["c11_ws"] = dict(src="c11_ws.c", variant="plain")
HARNESS["c11_ws_asan"] = dict(src="c11_ws.c", variant="asan", cflags=["-DVP_FORK=1"])
CHECKS["C11"] = dict(level="model_checking", technique="stateless model checking of the real WebSocket on a scripted network in virtual time: exhaustive segmentations, sizes, ends, faults and histories, delay-bounded schedules, both directions judged by an independent RFC 6455 peer",
    note="What the hub sends (text, binary, pings, pongs, close frames, of sizes around every boundary of the length encoding) arrives with two cuts anywhere in the response and the frames, coalesced or with gaps, while messages are sent and pings are due and the socket takes all or parts of what is written; connections end at any byte, by the hub, by failing writes or failing waits, are refused, closed or never answered, over plain and secure sockets; the socket is stopped and started again at any time. The bytes that are sent are decoded by an independent parser. Responses and addresses of many forms, every level of verbosity, and a queue that is filled up to and beyond its depth are enumerated.",
    runs=[dict(h="c11_ws", params=dict(part=0), quick=dict(bound=0)), dict(h="c11_ws_asan", params=dict(part=0), quick=dict(bound=0)), dict(h="c11_ws", params=dict(part=1), quick=dict(bound=0)), dict(h="c11_ws", params=dict(part=1, whole=1), quick=dict(bound=0, params=dict(sets=1)), thorough=dict(bound=0, time=800)), dict(h="c11_ws", params=dict(part=2), quick=dict(bound=0)), dict(h="c11_ws", params=dict(part=3), quick=dict(bound=0)), dict(h="c11_ws", params=dict(part=4), quick=dict(bound=0)), dict(h="c11_ws", params=dict(part=5), quick=dict(bound=1), thorough=dict(bound=2)), dict(h="c11_ws", params=dict(part=6), quick=dict(bound=0)), dict(h="c11_ws_asan", params=dict(part=6), quick=dict(bound=0)), dict(h="c11_ws", params=dict(part=7), quick=dict(bound=3), thorough=dict(bound=5)), dict(h="c11_ws_asan", params=dict(part=8), quick=dict(bound=0)), dict(h="c11_ws", params=dict(part=9), quick=dict(bound=0))],
    rule="one execution = one segmentation, fault, history or schedule; evaluations are messages and pongs exchanged", assumptions=["a message has at least one byte and at most the size of a frame less its header, beyond which the code cuts it off with a warning", "the hub sends whole messages in single unmasked frames, as far as the code supports them", "the memory of a queued message stays as it is until it is sent", "messages queued while there is no connection are discarded, as coded", "OpenSSL is represented by the state of its handshake (validated against the library on a loopback connection)"])
HARNESS["c12_archive"] = dict(src="c12_archive.c", variant="plain")
HARNESS["c12_archive_asan"] = dict(src="c12_archive.c", variant="asan", cflags=["-DVP_FORK=1"])
CHECKS["C12"] = dict(level="model_checking", technique="stateless model checking of the real file manager on a simulated file system in virtual time: exhaustive histories of archives and new files, delay-bounded schedules, every deletion judged against the whole archive",
    note="Every archive of a family (files over several days, in either directory order, with unknown entry types, hidden files, subfolders, blanks in the path, files of gigabytes), lists of files that are large enough, just or too small, limits given individually or as a whole, and every sequence of events up to a depth: new files in the same or a new folder, pauses, files that do not belong there, a restart with a file being written. At every deletion the archive must be over its limit and the file its oldest; nothing else may ever be deleted; the archive must end up within its limit. Decades of daily folders, schedules of two writers against the removers, and the age of logs are explored separately.",
    runs=[dict(h="c12_archive", params=dict(part=0), quick=dict(bound=0), thorough=dict(bound=0, params=dict(events=4), time=800)), dict(h="c12_archive", params=dict(part=1), quick=dict(bound=0)), dict(h="c12_archive_asan", params=dict(part=1), quick=dict(bound=0)), dict(h="c12_archive_asan", params=dict(part=4), quick=dict(bound=0)), dict(h="c12_archive", params=dict(part=2), quick=dict(bound=3), thorough=dict(bound=4)), dict(h="c12_archive", params=dict(part=3), quick=dict(bound=0))],
    rule="one execution = one history or schedule; evaluations are deletions", assumptions=["file names follow the documented pattern and are registered in the order of their times", "the files of one folder alone fit into the list of files (the code warns otherwise)", "no file is registered that a re-scan of an archive too large for the list has already found", "the files can be deleted"])
HARNESS["c13_health"] = dict(src="c13_health.c", variant="plain", inst=["RKHealthEngine.c"])
CHECKS["C13"] = dict(level="model_checking", technique="stateless model checking of the real consolidator: exhaustive histories of reports and silences in virtual time and delay-bounded schedules, every record compared with a reference consolidation",
    note="Every history up to a depth of reports (nested objects, enumerations, location and heading in several forms, reports that fill a slot, reports without content), silences and steps of the clock for several nodes; schedules of reporting threads against the consolidator. Every record is parsed and compared with a reference consolidation; the slots of the nodes are compared byte by byte.",
    runs=[dict(h="c13_health", params=dict(part=0), quick=dict(bound=0), thorough=dict(bound=0, params=dict(events=6))), dict(h="c13_health", params=dict(part=1), quick=dict(bound=0), thorough=dict(bound=0, params=dict(events=9))), dict(h="c13_health", params=dict(part=2), quick=dict(bound=0)), dict(h="c13_health", params=dict(part=3), quick=dict(bound=1), thorough=dict(bound=2))],
    rule="one execution = one history; evaluations are consolidated records", assumptions=["the node of the radar itself reports at least every second (it paces the records)", "a report is complete within the time the consolidator waits for a taken slot", "a report leaves room in its slot for the terminating marks; a node that does not fit into the record is left out of that record as a whole", "the location follows the GPS after five differing readings, as coded"])
HARNESS["c15_steer"] = dict(src="c15_steer.c", variant="plain", inst=["RKSteerEngine.c"])
HARNESS["c15_steer_asan"] = dict(src="c15_steer.c", variant="asan", cflags=["-DVP_FORK=1"])
CHECKS["C15"] = dict(level="model_checking", technique="stateless model checking of the real scan engine against an antenna: exhaustive scan shapes, antennas and command histories in closed loop, delay-bounded schedules of commands against positions, judged by a reference line-up",
    note="Twenty volumes of every kind of sweep are run in closed loop with every antenna of a family (initial position and motion, delay, acceleration, rate of positions, use of point instructions): where each sweep begins and ends, what its positions are flagged with, that it ends, that the antenna stops when told. Every sequence of commands up to a depth, valid and invalid, with every choice of gaps, is compared with a reference line-up sweep by sweep. Commands are interleaved with the derivation of actions at every shared access. Line-ups of up to 200 sweeps and their summaries run under the address sanitizer.",
    runs=[dict(h="c15_steer", params=dict(part=0), quick=dict(bound=0), thorough=dict(bound=0, params=dict(full=1), time=800)), dict(h="c15_steer", params=dict(part=1, events=2, wide=1), quick=dict(bound=0)), dict(h="c15_steer", params=dict(part=1, events=3), quick=dict(bound=0), thorough=dict(bound=0, params=dict(events=4), time=800)), dict(h="c15_steer", params=dict(part=2), quick=dict(bound=2), thorough=dict(bound=3, time=800)), dict(h="c15_steer_asan", params=dict(part=3), quick=dict(bound=0))],
    rule="one execution = one volume with one antenna, one command history or one schedule; evaluations are positions judged", assumptions=["the antenna follows an instruction within two positions and accelerates by at least 20 deg/s2", "the rate of a sweep has the sign of its direction; sweeps are wider than the tolerance of the position; azimuth rates are above the tolerance of the velocity", "the experimental speed-down scan ('b') is not used", "consecutive PPI scans with the same mark cover a revolution each; any other PPI runs to its mark"])
HARNESS["c16_record"] = dict(src="c16_record.c", variant="plain", inst=["RKRawDataRecorder.c"])
CHECKS["C16"] = dict(level="model_checking", technique="stateless model checking of the real recorder: exhaustive histories, delay-bounded schedules and faults of the file system, every announced file read back with the real reader",
    note="Every history up to a depth of pulses, changes of configuration, switches and restarts, for caches of several sizes and both kinds of data; schedules of a switch and a stop against the recorder; short, interrupted and refused calls of the file system. Each file is read back at the moment it is announced, and at the end the folder is compared.",
    runs=[dict(h="c16_record", params=dict(part=0), quick=dict(bound=0, params=dict(events=5)), thorough=dict(bound=0, params=dict(events=7))), dict(h="c16_record", params=dict(part=1), quick=dict(bound=3), thorough=dict(bound=5)), dict(h="c16_record", params=dict(part=2), quick=dict(bound=2), thorough=dict(bound=3))],
    rule="one execution = one history; evaluations are pulses read back", assumptions=["pulses that start a file are at least a millisecond apart", "the recorder keeps up with the pulse ring", "configurations numbered up to 1003 belong to the start of a radar and are not recorded"])
HARNESS["c21_hlog"] = dict(src="c21_hlog.c", variant="plain", inst=["RKHealthLogger.c"])
CHECKS["C21"] = dict(level="model_checking", technique="stateless model checking of the real logger: exhaustive histories and delay-bounded schedules, every announced log read back",
    note="Every history up to a depth of records with steps of the clock (the same second, the next minute, an hour, backwards), records without a time, switches and restarts; schedules of a switch and a stop against the logger. Each log is read back at the moment it is announced, and at the end the folder is compared.",
    runs=[dict(h="c21_hlog", params=dict(part=0), quick=dict(bound=0, params=dict(events=5)), thorough=dict(bound=0, params=dict(events=6))), dict(h="c21_hlog", params=dict(part=1), quick=dict(bound=3), thorough=dict(bound=5))],
    rule="one execution = one history; evaluations are records read back", assumptions=["a log that is continued within the second of its name is announced again"])
HARNESS["c24_queue"] = dict(src="c24_queue.c", variant="plain", inst=["RKFoundation.c"], iflags=["-fno-builtin-memcpy"])
CHECKS["C24"] = dict(level="model_checking", technique="stateless model checking of the real queue: delay-bounded schedules of producers and a consumer at memory-access granularity, plus exhaustive enumeration of push and pop sequences against a FIFO model",
    note="Every sequence of pushes and pops up to a depth on queues of several sizes, waiting and not, fresh and after the ring went around; schedules of one or two producers and a consumer where every access to the queue, and the middle of every copy, can be interrupted.",
    runs=[dict(h="c24_queue", params=dict(part=0), quick=dict(bound=0, params=dict(ops=15)), thorough=dict(bound=0, params=dict(ops=20))), dict(h="c24_queue", params=dict(part=1), quick=dict(bound=3), thorough=dict(bound=4))],
    rule="one execution = one sequence of operations or one schedule; evaluations are operations", assumptions=["one consumer; a command is used until the next one is taken"])
HARNESS["c25_recording"] = dict(src="c25_recording.c", variant="asan")
CHECKS["C25"] = dict(level="exploration", technique="bounded exhaustive enumeration of cuts, byte substitutions and impossible sizes of recordings, executed on the real reader",
    note="Recordings of every version and data type, over a grid of waveforms, down-sampling ratios and gate counts, are cut at every byte behind the header (and on a grid within), every byte of small ones is replaced, and every size field gets values that do not fit (address sanitizer on, and every byte around and inside of the slot is compared).",
    runs=[dict(h="c25_recording", params=dict(part=0), quick=dict(bound=0), thorough=dict(bound=0, params=dict(step=1))), dict(h="c25_recording", params=dict(part=1), quick=dict(bound=0), thorough=dict(bound=0, params=dict(values=8))), dict(h="c25_recording", params=dict(part=2), quick=dict(bound=0))],
    rule="one execution = one recording and its cuts or damages; evaluations are calls of the pulse reader", assumptions=["refusing a file header means leaving with an error message, as the reader does"])
HARNESS["c27_center"] = dict(src="c27_center.c", variant="plain")
HARNESS["c27_center_asan"] = dict(src="c27_center.c", variant="asan", cflags=["-DVP_LEAN=1"])
CHECKS["C27"] = dict(level="model_checking", technique="stateless model checking of the real stream and command handlers (delay-bounded schedules), plus exhaustive enumeration of histories against a reference client",
    note="The real handlers of the command centre are given a radar of a few slots and a client whose connection is recorded: every history up to a depth of rays, sweeps, healths, statuses and changes of the subscription, for thirteen sets of streams, each with several down-sampling ratios, lags, signal processor or relay; schedules of the stream and the command thread and of two clients that register and leave; text streams with several sizes of terminal; lists of commands on a signal processor and a relay; registrations and returned products of right, wrong and impossible sizes; I/Q of several waveforms and ratios; overviews of healths with names and values of every length around the limits (address sanitizer). The recorded bytes are taken apart by a reference client and compared with what the radar had.",
    runs=[dict(h="c27_center", params=dict(part=0), quick=dict(bound=0)), dict(h="c27_center", params=dict(part=1), quick=dict(bound=2)), dict(h="c27_center_asan", params=dict(part=3), quick=dict(bound=0)), dict(h="c27_center_asan", params=dict(part=4), quick=dict(bound=0)), dict(h="c27_center_asan", params=dict(part=5), quick=dict(bound=0)), dict(h="c27_center", params=dict(part=6), quick=dict(bound=2)), dict(h="c27_center", params=dict(part=9), quick=dict(bound=2), thorough=dict(bound=4)), dict(h="c27_center_asan", params=dict(part=2), quick=dict(bound=0)), dict(h="c27_center_asan", params=dict(part=7), quick=dict(bound=0)), dict(h="c27_center_asan", params=dict(part=8), quick=dict(bound=0))],
    rule="one execution = one history or one schedule; evaluations are messages", assumptions=["rays are finished in order, at most twice the number of moment cores behind the newest", "a stream starts with the latest item; the client is fast enough that no ring laps it", "a client that returns products sends no other command between a sweep and its products", "a relay answers an authentication with the controls it got; pings are not answered"])

HARNESS["c28_relay"] = dict(src="c28_relay.c", variant="plain", inst=["RKRadarRelay.c"])
HARNESS["c28_relay_asan"] = dict(src="c28_relay.c", variant="asan")
CHECKS["C28"] = dict(level="model_checking", technique="exhaustive enumeration of histories of messages against a copy of the buffers, plus stateless model checking of the relay with users, subscriptions, losses of the connection and a stop (delay-bounded schedules)",
    note="The real relay is given a client whose connection is played by the harness. Every history of messages up to a depth (rays of five lists of products and four sizes, pulses, healths alone and several at once, statuses, sweep headers, responses, and ones that are cut, too long or not what they say) is applied to the real receive handler under the address sanitizer and to a copy of the buffers. Then two users send commands, streams are subscribed to before, while and after the relay connects, the connection is lost after every number of answers, or the relay is stopped: every schedule with a bounded number of delays.",
    runs=[dict(h="c28_relay_asan", params=dict(part=0), quick=dict(bound=0, params=dict(ops=3)), thorough=dict(bound=0, params=dict(ops=3))), dict(h="c28_relay", params=dict(part=1), quick=dict(bound=2), thorough=dict(bound=3))],
    rule="one execution = one history or one schedule; evaluations are messages, then schedules", assumptions=["the other radar answers commands in order, within a second", "memory is sequentially consistent", "the contents of sweeps are counted, not kept, by a relay"])
