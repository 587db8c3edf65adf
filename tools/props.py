#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every pulse handed to the compressor is processed exactly once and in order",
 "Every pulse that is marked as carrying I/Q data is run through the installed compressor exactly once, with the filter group that its sequence number selects, by one worker, and then becomes available as processed. Processed pulses are retrieved in the order in which they were handed in, none is lost, repeated or left behind while the engine keeps running, and a pulse is never reported as processed before its compression has finished.",
 ["schedules", "configurations"], "all interleavings (within a preemption bound) of the producer, the watcher and the workers, for every worker count, ring depth, filter-group count and signalling mode in the explored set",
 "rkutil -T runs one free-running schedule with one set of parameters; losing or repeating a pulse needs a specific interleaving of the producer, the watcher and a worker, often at a ring wrap.",
 ["source/RKPulseEngine.c", "headers/RadarKit/RKPulseEngine.h", "source/RKFoundation.c", "headers/RadarKit/RKFoundation.h"],
 [("pulse watcher posts one worker per pulse, round robin", "source/RKPulseEngine.c pulseWatcher"), ("worker walks its own residue class of the ring", "source/RKPulseEngine.c pulseEngineCore"), ("retrieval in ring order", "source/RKPulseEngine.c RKPulseEngineGetProcessedPulse")],
 [("pulse status bits", "progress of one pulse", "RKPulse.header.s"), ("pulse index", "next slot to fill", "RKRadar.pulseIndex")],
 ["RKPulseEngineGetVacantPulse", "RKPulseEngineGetProcessedPulse", "installed compressor callback", "pulse status"])

prop("C02", "Pulse compression output equals direct correlation with the waveform filter",
 "For 16-bit I/Q input, each compressed sample that a filter is told to deliver equals the correlation of the raw samples, starting at the filter's input origin, with the conjugated filter coefficients, placed at the filter's output origin, for both polarisations and in both the interleaved and the split layout. The reported gate count shrinks by the total filter length minus one, samples outside the delivered windows are left as they were, and down-sampling keeps every n-th compressed gate.",
 ["inputs", "configurations"], "all combinations, within small bounds, of gate count, filter lengths, input/output origins, delivered length, filter count per group, group, down-sampling ratio and an impulse basis of inputs (the operation is linear)",
 "the existing test prints one impulse response for a person to look at; windows, origins, transform sizes and multi-filter groups are never swept.",
 ["source/RKPulseEngine.c", "source/RKSIMD.c", "source/RKDSP.c", "source/RKScratch.c"],
 [("FFT correlation", "source/RKPulseEngine.c RKBuiltInCompressor"), ("plan selection", "source/RKPulseEngine.c pulseWatcher"), ("filter installation", "source/RKPulseEngine.c RKPulseEngineSetGroupFilter")],
 [], ["RKGetComplexDataFromPulse", "RKGetSplitComplexDataFromPulse", "pulse header gate counts"])

prop("C03", "The clutter filter runs each pulse once, in order, over every gate",
 "When the pulse-to-pulse filter is enabled, every gate in its configured range equals the filter's difference equation applied over successive pulses at that gate, for any number of workers sharing the range gates, and gates outside the range pass through unchanged. Every pulse becomes available after filtering, in order, whatever the relative timing of the workers, and when the filter is disabled pulses pass through untouched.",
 ["schedules", "configurations", "inputs"], "all interleavings within a preemption bound for small rings and 1-3 workers; all filter types, gate origins and lengths in the explored set",
 "splitting gates among workers and the per-pulse barrier are timing and configuration dependent; the test runs a single configuration with no reference output.",
 ["source/RKPulseRingFilter.c", "headers/RadarKit/RKPulseRingFilter.h", "source/RKDSP.c"],
 [("gate partition over workers", "source/RKPulseRingFilter.c updateRingFilter..."), ("per-worker completion flags", "source/RKPulseRingFilter.c pulseRingWatcher")],
 [("work-done flags", "one per pulse and worker", "RKPulseRingFilterEngine.workerTaskDone")],
 ["filtered split I/Q data", "pulse status"])

prop("C04", "Every pulse gets the interpolated position of the two readings around it",
 "Every pulse gets tagged exactly once, in order, with the azimuth and elevation interpolated linearly in time, along the shorter arc, between the two most recent position readings that bracket it, and with the active configuration and the sweep markers carried by these readings. Angles stay in range across the 0/360 wrap, and tagging finishes for every pulse whose bracketing positions arrive, in whatever order and at whatever relative rate pulses and positions come.",
 ["histories", "schedules", "inputs"], "all merge orders of short pulse and position sequences over a small angle/time alphabet, with all interleavings of producer and tagger up to a preemption bound",
 "there is no test of the tagger with out-of-phase or wrapped positions; the wrap, the bracketing search and marker transfer depend on the arrival history.",
 ["source/RKPositionEngine.c", "source/RKMisc.c", "headers/RadarKit/RKTypes.h"],
 [("bracketing and interpolation", "source/RKPositionEngine.c pulseTagger"), ("angle arithmetic", "headers/RadarKit/RKMisc.h RKInterpolatePositive360")],
 [], ["pulse header azimuth/elevation/marker/configIndex/positionIndex"])

prop("C05", "Every processed pulse ends up in exactly one ray",
 "Processed pulses are grouped into rays in order: a ray's pulses are consecutive and belong to one beam position and one configuration, no pulse is left out, and the pulse at a beam boundary is shared by the two adjacent rays only (by none when boundary pulses are excluded), the pulse that ends a sweep never. A ray carries the start/end positions, times, markers and pulse count of exactly its group; a group too small to be processed gives a ray marked skipped with empty data. Rays are published in order, and only after their data are complete, regardless of the number of workers and the timing.",
 ["schedules", "histories"], "all short sequences of pulse headings/markers/configurations over a small alphabet and interleavings of gatherer and workers within a preemption bound",
 "the gatherer's cut-offs (beam change, sweep marker, pulse-count limit, ring wrap) interact with worker scheduling; the tests only time the engine.",
 ["source/RKMomentEngine.c", "source/RKScratch.c", "headers/RadarKit/RKMomentEngine.h"],
 [("gathering", "source/RKMomentEngine.c pulseGatherer"), ("ray making", "source/RKMomentEngine.c momentCore, RKScratch.c makeRayFromScratch")],
 [], ["ray header", "ray status", "moment processor callback"])

prop("C06", "Every complete sweep is collected once, with exactly its own rays",
 "When a sweep's end marker arrives, exactly one sweep is delivered that contains the consecutive rays since its beginning marker, in order, without rays of another configuration or another sweep, trimmed only of the redundant ray of a full rotation. Rays and product slots are handed back for reuse once the sweep is done with, never while a later sweep needs them. While recording is on, each base product of a complete sweep is recorded exactly once; sweeps of fewer than 3 rays or mostly outside an active scan, and incomplete or aborted sweeps, are not recorded.",
 ["histories", "schedules"], "all short sequences of ray markers (begin, middle, end, combinations, missing markers) and configuration changes, with the gatherer, manager and releaser threads interleaved within a preemption bound",
 "sweep boundaries depend on marker history and on three concurrently running threads; the tests never feed an aborted or a back-to-back sweep.",
 ["source/RKSweepEngine.c", "headers/RadarKit/RKSweepEngine.h", "source/RKProduct.c"],
 [("gathering", "source/RKSweepEngine.c rayGatherer"), ("collecting and trimming", "source/RKSweepEngine.c RKSweepCollect"), ("product slots", "source/RKSweepEngine.c RKSweepEngineDescribeProduct...")],
 [], ["sweep handed to the product recorder", "ray status", "product flags"])

prop("C07", "Every engine that was started can be stopped, at any moment",
 "Starting an engine and stopping it returns, at whatever moment the stop arrives and whatever the engine is waiting for, with all of its threads ended and its locks free; the engine can be started again or freed afterwards. Stopping twice, or stopping an engine that never started, returns promptly without harm.",
 ["schedules", "histories"], "all interleavings, within a preemption bound, of start/stop/restart call sequences against every thread the engine owns, with and without data flowing",
 "a lost stop request, a join under a lock or a flag update lost between two threads shows up only in a narrow window.",
 ["source/RKPulseEngine.c", "source/RKPulseRingFilter.c", "source/RKPositionEngine.c", "source/RKMomentEngine.c", "source/RKSweepEngine.c", "source/RKHealthEngine.c", "source/RKHealthLogger.c", "source/RKFileManager.c", "source/RKRawDataRecorder.c", "source/RKSteerEngine.c", "source/RKFoundation.c", "source/RKServer.c", "source/RKClient.c", "source/RKWebSocket.c"],
 [("stop request flag and join", "every RK*EngineStop")],
 [("engine state word", "life-cycle bits", "RKEngineState")], ["return of Start/Stop", "engine state after Stop"])

prop("C08", "Configuration changes are atomic, ordered and never lost",
 "Each configuration change produces one new configuration that equals the previous one except for the values given, carries the next sequence number, and becomes current only when it is complete; concurrent changes are all applied, one after another. A rejected change leaves the current configuration as it was and does not block later changes.",
 ["schedules", "inputs", "histories"], "all sequences of changes over the settable keys up to a depth, and all interleavings of two changers and a reader at memory-access granularity within a preemption bound",
 "the tests call the change function once from a single thread.",
 ["source/RKConfig.c", "headers/RadarKit/RKConfig.h"],
 [("copy-forward under a lock", "source/RKConfig.c RKConfigAdvance")],
 [("configuration ring", "past and current configurations", "RKRadar.configs")], ["RKConfig ring and index"])

prop("C09", "Messages reach the peer complete and in order, however the socket behaves",
 "When a send call reports success the bytes that went out are exactly the concatenation of the requested payloads, whatever split of partial writes and temporary refusals the socket produces. When it cannot complete, it reports failure within its time limit rather than success, and never sends bytes twice or out of order.",
 ["fault_sequences", "inputs"], "all sequences of socket results (full, partial at every offset, would-block, not-ready, error) up to a depth for one to three payloads of small sizes",
 "loop-back sockets in tests accept everything at once; partial writes and refusals need a controlled socket.",
 ["source/RKServer.c", "source/RKNetwork.c", "source/RKClient.c"],
 [("send loops", "source/RKServer.c RKOperatorSendPackets, source/RKNetwork.c RKNetworkSendPackets")],
 [], ["bytes accepted by the socket", "return value"])

prop("C10", "Received messages are reassembled exactly, however the stream is segmented",
 "A client hands its receive handler exactly the messages that the server sent, each once, complete and in order, for every way the byte stream can be segmented, delayed or cut; a message that is cut off is never delivered, and an announced size larger than the buffer is refused. A server hands its command handler exactly the non-empty command lines that the peer sent, in order and without line terminators, for every segmentation. A payload that it reads from a client is complete or refused. Commands that wait or are being executed are never overwritten. Stopping either side at any time leaves no thread and no open connection behind, and none is closed twice.",
 ["fault_sequences", "inputs"], "all segmentations and would-block insertions of short streams of framed messages / command lines, for each message format, and a disconnect at every byte",
 "segmentation is decided by the network; tests on loop-back see one.",
 ["source/RKClient.c", "source/RKServer.c", "headers/RadarKit/RKNetwork.h"],
 [("delimiter then payload loop", "source/RKClient.c theClient"), ("line splitting", "source/RKServer.c RKOperatorRoutine")],
 [], ["receive handler calls", "command handler calls"])

prop("C11", "WebSocket messages are exchanged exactly once, in order, in valid frames",
 "Each message queued for the hub goes out exactly once, in order, as one masked frame with the right length and content, and each frame from the hub is delivered exactly once and complete, whatever the segmentation, coalescing or interleaving with outgoing traffic. Pings are answered with the same payload, a close or error ends the connection and the next connection starts clean.",
 ["fault_sequences", "inputs", "schedules"], "payload sizes around every length-encoding boundary; all segmentations and coalescings of short frame sequences; sends placed at every point",
 "the tests need a live hub; segmentation and interleaving cannot be forced.",
 ["source/RKWebSocket.c", "headers/RadarKit/RKWebSocket.h", "headers/RadarKit/_rfc_6455.h"],
 [("frame encode/decode", "source/RKWebSocket.c RKWebSocketFrameEncode/Decode"), ("run loop", "source/RKWebSocket.c transporter")],
 [("payload ring", "queued messages", "RKWebSocket.payloads")], ["bytes on the socket", "message handler calls"])

prop("C12", "The archive stays under its limit by deleting only its own oldest files",
 "Whenever the files in a managed archive exceed its limit, the manager deletes the oldest ones, one at a time, until the usage is within the limit again, and deletes nothing while the usage is within the limit. It never deletes a newer file before an older one, a file outside of its archive, or a folder that still holds files, and files that are registered while it runs are counted exactly once.",
 ["histories", "configurations"], "all small archives (folders, files, sizes) times limits times sequences of newly registered files, up to a depth",
 "tests never run the manager over its limit; which file goes depends on the whole history of folders and files.",
 ["source/RKFileManager.c", "headers/RadarKit/RKFileManager.h"],
 [("oldest-first removal", "source/RKFileManager.c fileRemover"), ("registration", "source/RKFileManager.c RKFileManagerAddFile")],
 [("index of files and usage", "what the manager believes is on disk", "RKFileRemover")], ["file deletions", "directory contents"])

prop("C13", "Consolidated health always reflects the latest fresh report of every node",
 "The consolidated health record contains the latest report of every active node, each under its own name, and nothing else, as far as there is room for them in a record; a node's values are marked as old once that node has stopped reporting and are fresh again when it reports. Location and heading are taken from the reports as specified and user reports are never altered or lost.",
 ["histories", "inputs"], "all short histories of node reports, silences and clock steps over a small alphabet of nodes and JSON values",
 "staleness depends on the history of several nodes and on time; the tests feed one static report.",
 ["source/RKHealthEngine.c", "source/RKMisc.c", "headers/RadarKit/RKHealthEngine.h"],
 [("consolidation", "source/RKHealthEngine.c healthConsolidator"), ("JSON merging", "source/RKMisc.c RKJSON*")],
 [], ["consolidated health string"])

prop("C14", "Preference files are read as written, for every layout of lines",
 "Every line of a preference file that has a keyword and a value (separated by blanks, a '#' starts a comment) is retrievable, in order, under exactly its keyword with exactly its value and numeric interpretation, independent of blanks, comments, blank lines and other lines, and a keyword that is not there is reported as absent. Counting, iterating and updating terminate for every file and agree with each other.",
 ["inputs", "histories"], "all files of up to a few lines from an alphabet of line shapes, and all sequences of queries on them",
 "tests read one well-formed sample file.",
 ["source/RKPreference.c", "headers/RadarKit/RKPreference.h"],
 [("line parser", "source/RKPreference.c RKPreferenceUpdate"), ("queries", "source/RKPreference.c RKPreferenceFindKeyword...")],
 [], ["RKPreference API results"])

prop("C15", "Scan commands take effect as told, and every sweep begins, runs and ends",
 "The scan the antenna performs is always the one last armed: the line-up given by volume, append and pinch commands is performed sweep by sweep, in order, on-deck scans take over only at the end of the current one and pinch scans once, and a rejected command changes nothing. For any antenna trajectory that follows the commanded motion, each sweep begins at its start with the other axis at rest in place, runs to its end, is marked complete there exactly once, and the next sweep follows; the positions are flagged with the sweep they belong to; stopping the scan, or running out of sweeps, stops the pedestal.",
 ["histories", "inputs"], "all command sequences up to a depth over a command alphabet, each driven against an antenna model over all small scan shapes",
 "the tests print the actions for one volume; pinch, repeat and partial errors depend on the command history.",
 ["source/RKSteerEngine.c", "headers/RadarKit/RKSteerEngine.h"],
 [("line-up", "source/RKSteerEngine.c RKSteerEngineAddLineupSweep, NextHitter"), ("progress state machine", "source/RKSteerEngine.c RKSteerEngineGetAction..."), ("command parser", "source/RKSteerEngine.c RKSteerEngineExecuteString")],
 [], ["actions returned", "position flags", "line-up"])

prop("C16", "Every pulse offered while recording is on can be read back, whole and in order",
 "While raw recording is on, every pulse that reaches the recorder is written exactly once and in order to the file of its configuration, so that reading the recorded files in sequence returns the same pulses and configuration. This holds across cache flushes, file rotations, recording being switched on and off and the recorder being stopped; a file is announced to the archive only when it is complete. (Configurations numbered up to 1003 belong to the start of the radar and are not recorded.)",
 ["histories", "crash_points", "configurations"], "all short histories of pulses, configuration changes, on/off switches and stop, for every cache size and rotation depth in the explored set",
 "tests record a single uninterrupted stretch, never the tail at a stop or rotation with a part-filled cache.",
 ["source/RKRawDataRecorder.c", "source/RKFileHeader.c", "source/RKFoundation.c"],
 [("cached writer", "source/RKRawDataRecorder.c RKRawDataRecorderCacheWrite/Flush"), ("rotation", "source/RKRawDataRecorder.c pulseRecorder"), ("reader", "source/RKFoundation.c RKReadPulseFromFileReference")],
 [], ["files on disk", "RKReadPulseFromFileReference"])

prop("C17", "Waveforms survive writing, reading and transformation unchanged in meaning",
 "A waveform written to a file and read back is the same waveform: samples, filters, frequency, type and name. Generated waveforms have the declared depth and filters, each filter stays within its waveform's samples, appending, copying, conjugating and decimating preserve what they promise, and a truncated or malformed file is rejected without touching memory outside of the waveform.",
 ["inputs", "crash_points"], "all generators over small parameter grids, all compositions up to a depth, every truncation point and every single-byte corruption of the header of small files",
 "tests write one waveform and never read a damaged file.",
 ["source/RKWaveform.c", "headers/RadarKit/RKWaveform.h"],
 [("file format", "source/RKWaveform.c RKWaveformWrite/ReadFromReference"), ("generators", "source/RKWaveform.c")],
 [], ["RKWaveform contents"])

prop("C18", "A product file read back is the product that was written",
 "A product written to a file and read back has the same geometry, scan type, start angle of every ray and value of every gate, with missing and range-folded gates still missing, and writing does not alter the product in memory. This holds for every scan type, number of rays and gates, product and configuration, and reading a file that is missing or damaged fails cleanly.",
 ["inputs", "configurations", "crash_points"], "all scan types, small ray and gate counts, value alphabets including missing/folded/non-finite values, and PRF/waveform settings in the explored grid",
 "tests write one synthetic sweep and never compare.",
 ["source/RKProductFile.c", "source/RKSweepFile.c", "source/RKProduct.c"],
 [("writer/reader", "source/RKProductFile.c")],
 [], ["RKProductFileWriterNC", "RKProductCollectionInitWithFilename"])

prop("C19", "The clock turns ticks into monotonic time, whatever the readings",
 "For a steadily advancing counter the clock returns increasing times spaced by the counter's period and staying with the reference time, in spite of delays of the individual calls that are shorter than the period. A missing, reset, repeated or jumping counter or reference never yields a non-finite or backward running time, except that the clock starts over from the reference time when its own is more than 300 s away from it.",
 ["histories", "fault_sequences"], "all sequences up to a depth over an alphabet of counter steps and call delays",
 "the tests exercise one pattern of jitter and print the result.",
 ["source/RKClock.c", "headers/RadarKit/RKClock.h"],
 [("stride averaging predictor", "source/RKClock.c RKClockGetTime")],
 [], ["RKClockGetTime"])

prop("C20", "JSON helpers extract and rewrite exactly the named value",
 "For any well-formed JSON text, looking up a key returns exactly that key's value, whatever its type, its position, and the neighbouring strings, escapes and nesting. Replacing values or enumerations changes only the addressed ones and leaves the text well formed, and none of the helpers read or write outside of their buffers or fail to terminate.",
 ["inputs"], "all JSON objects of bounded size over an alphabet of keys, scalars, strings with escapes, arrays and nested objects, and all replacement lengths",
 "tests check a handful of texts.",
 ["source/RKMisc.c", "headers/RadarKit/RKMisc.h"],
 [("scanner", "source/RKMisc.c RKJSON*"), ("rewriters", "source/RKMisc.c RKReplaceAllValuesOfKey")],
 [], ["RKJSON*, RKGetValueOfKey, RKReplace*"])

prop("C21", "Health logs hold every consolidated record, in the file of its minute",
 "While recording is on, every consolidated health record is appended once, in order, to the log file of the period it belongs to; files are closed and announced to the archive when the period ends, recording is switched off or the logger stops. No record goes to a closed file or is written while recording is off.",
 ["histories"], "all short histories of health records, clock steps and recording switches",
 "rotation and switching need a history across minutes; no test covers it.",
 ["source/RKHealthLogger.c"],
 [("logger loop", "source/RKHealthLogger.c healthLogger")],
 [], ["log files"])

prop("C22", "Buffer slots never overlap, are aligned, and are cleared completely",
 "In every pulse, ray and scratch buffer, for every capacity and depth, the data areas of all slots, channels and moments are within the allocation, disjoint, and aligned for vector instructions; index arithmetic visits every slot in turn. Clearing slots clears all of their data and no other slot, and taking vacant slots hands out every slot in turn, vacant and with the next number, leaving everything else untouched.",
 ["configurations", "histories"], "all capacities and depths up to a bound, all channel/moment pairs, and all advance/consume sequences up to a depth",
 "tests check one capacity.",
 ["source/RKFoundation.c", "source/RKScratch.c", "headers/RadarKit/RKFoundation.h"],
 [("layout functions", "source/RKFoundation.c RKPulseBufferAlloc, RKRayBufferAlloc, RKGet*Data*")],
 [], ["pointers returned by the layout functions"])

prop("C23", "Moment estimates equal their defining formulas and are gated by SNR alike",
 "For every moment method and any set of pulses, power, velocity, width, differential reflectivity, phase and correlation equal the method's defining formula applied gate by gate, independent of the number of gates and of the rays before, with the calibration of the filter that delivers the gate; the result for one gate never depends on another gate. In the ray, quantities of a channel are missing where that channel is below the signal thresholds (or the next gate is), joint quantities where either channel is, and all others are finite and within their physical ranges.",
 ["inputs", "configurations"], "all small pulse sequences over an I/Q alphabet, gate counts around the vector width, methods, lags, noise levels and thresholds",
 "the tests print figures for a few hand-made pulses.",
 ["source/RKPulsePair.c", "source/RKPulsePairHop.c", "source/RKPulsePairATSR.c", "source/RKMultiLag.c", "source/RKSpectralMoment.c", "source/RKScratch.c", "source/RKSIMD.c"],
 [("estimators", "source/RKPulsePair.c RKPulsePair etc.")],
 [], ["ray data"])

prop("C24", "Command queues deliver every command once and in order",
 "Every command accepted by a queue is delivered exactly once, in the order of acceptance, to the consumer, with its content intact, however producers and the consumer interleave. A queue that is full refuses or waits instead of overwriting, and an empty one yields nothing. A command that was taken stays intact until the next one is taken, and the counts of deposits and withdrawals say how many there were.",
 ["schedules", "histories"], "all interleavings of two producers and a consumer at memory-access granularity within a preemption bound, and all push/pop sequences up to a depth",
 "the test pushes and pops from one thread.",
 ["source/RKFoundation.c", "headers/RadarKit/RKFoundation.h"],
 [("ring of commands", "source/RKFoundation.c RKCommandQueue*")],
 [], ["RKCommandQueue API"])

prop("C25", "A cut-off or damaged recording is read up to the damage and never beyond",
 "Reading a raw recording that was cut at any byte returns exactly the pulses that were completely written and then reports the end; a header or pulse with impossible sizes is refused. Reading never touches memory outside of the pulse it was given, whatever the file contains and whichever file version it declares.",
 ["crash_points", "inputs"], "every truncation point of small recordings, every single-field corruption over boundary values, every file version",
 "tests read only complete, freshly written files.",
 ["source/RKFoundation.c", "source/RKFileHeader.c", "source/RKWaveform.c"],
 [("reader", "source/RKFoundation.c RKReadPulseFromFileReference"), ("header", "source/RKFileHeader.c RKFileHeaderInitFromFid")],
 [], ["RKReadPulseFromFileReference"])

prop("C26", "Data-stream subscriptions and text conversions are faithful both ways",
 "Converting a stream subscription to its text form and back yields the same subscription for every combination of the streams that have a letter, and every list of numbers, list of quoted words, path and product description is taken apart into exactly the items that are in the text; numbers, times and binary payloads written as text keep their value. No input makes a parser hang, lose an item or write past its destination.",
 ["inputs"], "all subsets of streams; all short strings over the delimiter alphabet of each parser",
 "tests cover a few strings.",
 ["source/RKFoundation.c", "source/RKMisc.c"],
 [("stream text", "source/RKFoundation.c RKStreamFromString, RKStringOfStream"), ("parsers", "source/RKFoundation.c RKParse*")],
 [], ["parser results"])

prop("C27", "Clients of the command centre get their streams whole, once and in order",
 "Each item of a stream (rays, products, sweeps, I/Q, health, status, log) that is finished after a client subscribed reaches it exactly once, in order, with the header that describes what follows and the content it has in the radar; a slot without finished data is never sent. A message is never torn apart by the answer to a command, whatever commands arrive and when; every command is answered once and in order, and no command, registration or returned product of one client harms the memory or the products of the radar or of another client.",
 ["schedules", "histories", "inputs"], "all histories of rays, sweeps, healths, statuses and subscriptions up to a depth for each kind of stream, schedules of the stream and command threads within a preemption bound, and short lists of commands, registrations and returned products",
 "the tests start the command centre interactively only; no client is ever connected to it.",
 ["source/RKCommandCenter.c", "source/RKRadar.c", "source/RKMisc.c", "source/RKSweepEngine.c", "headers/RadarKit/RKCommandCenter.h"],
 [("streams", "source/RKCommandCenter.c socketStreamHandler"), ("commands", "source/RKCommandCenter.c socketCommandHandler"), ("subscription", "source/RKCommandCenter.c socketInitialHandler"), ("products", "source/RKSweepEngine.c RKSweepEngineDescribeProduct, RKSweepEngineGetVacantProduct"), ("overview", "source/RKMisc.c RKMergeColumns")],
 [], ["bytes that a client receives", "product buffer of the radar"])

prop("C28", "A relay holds what the other radar sent, and clients get their own answers",
 "Each ray, pulse, health, status and configuration another radar sends ends up once, in order, in the relay's buffers with the header, products and samples it was sent with (gates beyond the relay's capacity dropped, the local capacity kept), and is marked ready only then; a message that is cut, too long or inconsistent changes nothing, and no message touches memory of other slots. A command is always answered, with the answer to that command or a refusal, whoever else asks. After any sequence of subscriptions, lost connections and reconnections the other radar is asked for the streams last requested.",
 ["histories", "inputs", "schedules", "faults"], "all histories of messages up to a depth over a grid of products, sizes and damages; schedules within a preemption bound of two users, subscriptions, a loss of the connection at each point, a disconnect and a stop",
 "no test starts a relay.",
 ["source/RKRadarRelay.c", "headers/RadarKit/RKRadarRelay.h", "source/RKCommandCenter.c", "source/RKClient.c"],
 [("messages", "source/RKRadarRelay.c RKRadarRelayRead"), ("greeting", "source/RKRadarRelay.c RKRadarRelayGreet"), ("commands", "source/RKRadarRelay.c RKRadarRelayExec"), ("streams", "source/RKRadarRelay.c RKRadarRelayUpdateStreams")],
 [], ["buffers of the relay's radar", "responses that users get", "streams the other radar is left with"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
