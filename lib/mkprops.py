#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "The fixed-size history buffer is a bounded double-ended queue",
  "After any sequence of insertions, removals and clears at either end, the fixed-size buffer holds exactly the elements a bounded double-ended queue would hold, in order: inserting into a full buffer (a copy of one of its own elements, too) discards only the element at the opposite end. Size, emptiness, fullness, front, back, indexed access and forward or backward iteration (including iterator arithmetic, differences and ordering) all describe that same sequence, wherever the contents happen to wrap. A copy or assignment of a buffer holds the same sequence and later changes to either one never show in the other.",
  ["histories", "inputs"], "every sequence of operations, every wrap position and fill level, every buffer size, copies taken at any point",
  "The tests run a handful of fixed sequences on one size; wrap position, fill level and operation order are quantified here.",
  ["common/circular_buffer.h"],
  [("ring indices and wrap-around iterators", "common/circular_buffer.h"), ("eviction of the opposite end when full", "common/circular_buffer.h")],
  [("head/tail", "first element and one past the last, with wrap", "common/circular_buffer.h")],
  ["size/empty/full", "front/back/operator[]/iteration", "copy construction and assignment"])
p("C02", "The history buffer constructs and destroys every element exactly once",
  "Every element object placed in the fixed-size buffer is constructed before it is used, and is destroyed exactly once: when it is popped, evicted by an insertion into a full buffer, cleared, overwritten by assignment of the whole buffer, or when the buffer goes away. No slot that holds no live element is ever assigned to, read or destroyed, so elements that own resources (strings, containers, satellite records) neither leak nor are freed twice.",
  ["histories", "inputs"], "every sequence of operations at every wrap position, for element types that own resources",
  "The tests use integers, for which a missing or double destruction is invisible.",
  ["common/circular_buffer.h"],
  [("placement construction / explicit destruction in raw storage", "common/circular_buffer.h")],
  [("raw slots", "uninitialised storage in which elements are built", "common/circular_buffer.h")],
  ["constructor/destructor/assignment calls of the element type"])
p("C03", "Time stamps form a total order with exact nanosecond arithmetic",
  "For any two time stamps exactly one of earlier, equal and later holds, and the six comparison operators all agree with the order of the instants they stand for, at any magnitude and any sub-second part. Adding or subtracting a duration, and differencing two stamps, is exact to the nanosecond (to one nanosecond for durations given as floating-point seconds), is undone by the opposite operation, and leaves the sub-second part in its canonical range. Comparisons against a quantised stamp treat stamps within half of the quantum as equal and otherwise follow the exact order, in both operand orders.",
  ["inputs", "histories"], "all pairs and sequences of stamps and durations, of either sign, including equal seconds and second boundaries",
  "The tests compare a few hand-picked stamps and never use the non-strict operators on stamps with equal seconds.",
  ["common/utctime.h", "common/utctime.cxx", "common/quantized_time.h", "common/quantized_time.cxx"],
  [("lexicographic comparison of (sec, nsec)", "common/utctime.cxx"), ("nanosecond wrap", "common/utctime.cxx"), ("half-resolution comparison", "common/quantized_time.cxx")],
  [("sec/nsec", "whole seconds and nanoseconds", "common/utctime.h")], ["comparison results", "sec/nsec after arithmetic"])
p("C04", "Satellite time scales convert to UTC exactly",
  "A week number and millisecond-of-week in the GPS, Galileo or GLONASS time scale converts to exactly the instant it denotes, to the millisecond, for every week and every millisecond of the week. Converting back (week number, seconds of week, day of week) gives the week and time it came from, and calendar dates convert to the instant they name, sub-second part included. A GLONASS time of day resolves to the instant with that time of day that is closest to the reference instant.",
  ["inputs"], "all weeks, all milliseconds of the week, all reference instants, all calendar dates",
  "The tests convert one instant whose millisecond part is zero.",
  ["common/utctime.cxx", "common/utctime.h"],
  [("fromGPS/fromGalileo/fromGlonass", "common/utctime.cxx"), ("GpsWeek/GpsTow/GlonassWeek/GlonassDayOfWeek", "common/utctime.cxx"), ("fromCalendar", "common/utctime.cxx")])
p("C05", "A closed log holds every record logged, and describes itself truthfully",
  "Every record logged to a stream before the log is closed is in the log afterwards, with its time stamp and values bit for bit, in the order it was logged and nowhere else, whatever the number of streams and however their records interleave. The log's description states the start time it was opened with, the end time it was closed with (the first close, however the log is later disposed of), exactly its streams with their names, and each stream's header states its true record count and fields. Separate logs, and separate streams of one log, never mix.",
  ["histories", "inputs"], "every sequence of open, stream creation, logging, amending and closing (explicit, repeated or by destruction), all values",
  "The tests write one or two logs with fixed values and always close once.",
  ["common/logging/log_writer.h", "common/logging/log_writer.cxx", "common/logging/serialize.h"],
  [("one file per stream key, count kept per stream", "common/logging/log_writer.cxx"), ("manifest written at close", "common/logging/log_writer.cxx")],
  [("stream counters", "records written so far", "common/logging/log_writer.h")], ["files of the log directory", "LogReader"])
p("C06", "Log replay delivers every subscribed record once, in time order",
  "Replaying a log calls each subscriber exactly once for every record of its stream and for no other record, with the stamp and payload that were logged. Records of all streams come out merged in non-decreasing time order, provided each stream was logged in time order, and records of one stream in the order they were logged. Streams nobody subscribed to are skipped without disturbing the others, and a subscriber can ask for the stamp of the next record of its stream at any time.",
  ["histories", "inputs"], "every assignment of records to streams and stamps (ties included), every subset of subscriptions, empty streams",
  "The test replays a fixed log of regularly interleaved stamps.",
  ["common/logging/log_reader.cxx", "common/logging/log_reader.h"],
  [("repeatedly deliver the stream with the smallest next stamp", "common/logging/log_reader.cxx")],
  [("next stamp per stream", "stamp of the record that the stream delivers next", "common/logging/log_reader.h")],
  ["callback invocations"])
p("C07", "An amending log overrides exactly the streams it rewrites",
  "Reading a log that amends another (which may itself amend further logs) presents one log: each stream comes whole from the outermost log that contains it, and every stream that only an amended log has is still there. The combined log starts at the earliest start and ends at the latest end of all logs in the chain, and remembers which logs it came from. Reading never changes any of the logs.",
  ["histories", "configurations"], "amendment chains of any depth, any distribution of streams over the logs, any start and end times",
  "The test has one chain of two logs with fixed streams and times.",
  ["common/logging/log_reader.cxx", "common/logging/log_writer.cxx"],
  [("recursive open, first log to provide a key wins", "common/logging/log_reader.cxx")],
  [("start/end", "combined time span", "common/logging/log_reader.h")], ["startTime/endTime", "records delivered"])
p("C08", "Periodic maintenance runs on schedule during replay and can stop it",
  "During replay the periodic maintenance callback is first called at the log's start time and then once per period, in order, each call happening before any record later than that scheduled time (beyond the clock quantum) is delivered as long as records are spaced closer than the period; it is told the time the replay has reached and is never called ahead of schedule. If it reports an error, replay stops there: no further record is delivered and no further call is made.",
  ["histories", "configurations"], "every set of stamps and gaps, every period, an error reported at any call",
  "The test uses one period and evenly spaced records.",
  ["common/logging/log_reader.cxx", "common/logging/log_reader.h"],
  [("next scheduled call advanced by the period", "common/logging/log_reader.cxx")],
  [("next maintenance time", "when the callback is next due", "common/logging/log_reader.h")], ["interleaving of maintenance and record callbacks"])
p("C09", "A satellite always answers with its closest ephemeris",
  "Whatever the order in which broadcast ephemerides for a satellite arrive, and however often they repeat or are superseded, the satellite keeps exactly one per reference epoch (the latest received), ordered by epoch, and a query at any instant is answered from the one whose epoch is closest to it. A query before any ephemeris has arrived reports failure instead of an answer. Ephemerides of one satellite never influence another.",
  ["histories", "inputs"], "every arrival order, duplicates, replacements, and every query instant (before, between, after and exactly on epochs)",
  "The tests add one or two ephemerides in order and query close to them.",
  ["common/satellite/satellite.h", "common/satellite/satellite.cxx"],
  [("ordered insertion and replacement", "common/satellite/satellite.h"), ("closest search", "common/satellite/satellite.h")],
  [("almanac", "ephemerides kept, ordered by epoch", "common/satellite/satellite.h")], ["closest ephemeris", "satellite position"])
p("C10", "The satellite registry tracks each constellation's newest satellites",
  "After any sequence of ephemeris arrivals the registry can find exactly the satellites it has been told about, each under its own constellation and number and with all ephemerides received since it was last registered; within a constellation only the longest-registered satellite is dropped, and only to make room for a new one when the constellation's table is full. Looking up a satellite or constellation that is not registered reports an error and changes nothing. Constellations never displace one another.",
  ["histories", "inputs"], "every arrival sequence over all constellations, more satellites than fit, lookups at any point",
  "The test registers a couple of satellites and never fills a table.",
  ["core/sat_manager.h", "core/sat_manager.cxx"],
  [("per-constellation bounded table", "core/sat_manager.cxx")],
  [("satellite tables", "per constellation, oldest first", "core/sat_manager.h")], ["getSat results"])
p("C11", "Delayed measurements are fused as if they had arrived in order",
  "Whatever order measurements arrive in, as long as none is older than the retained history, the estimator's latest state is the one obtained by applying all accepted measurements from the initial state in time order, each exactly once, and propagating with the inertial inputs that precede each of them. The retained history of states is ordered in time, and each retained state is the result of exactly the measurements up to its time.",
  ["histories", "schedules"], "every arrival order of inertial, position, satellite and ambiguity measurements, with ties and near-ties of time stamps",
  "The tests delay one or two measurements in fixed patterns.",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_estimator.h"],
  [("rewind to before the measurement and roll forward", "core/ekf/rtk_ekf_estimator.cxx"), ("time-ordered measurement queue", "core/ekf/rtk_ekf_estimator.h")],
  [("snapshot history", "states after each fused measurement", "core/ekf/rtk_ekf_estimator.h"), ("measurement queue", "time ordered measurements kept for replay", "core/ekf/rtk_ekf_estimator.h")],
  ["sequence of propagate/update calls", "state after each arrival"])
p("C12", "Rejected measurements have no effect and history stays bounded",
  "A measurement older than the retained history, or a satellite observation bundle that cannot be used (it names an unknown satellite or one without an ephemeris within two hours, or holds more observations than the filter has room for), is rejected with an error and leaves the estimator exactly as it was; every other measurement is accepted. Nothing in the retained history is more than one second older than the newest measurement, states within that second are kept as far as the buffer holds them, the newest state is never discarded, and no sequence of measurements (gaps, bursts, out-of-order or repeated stamps) can crash the estimator or leave it without a state.",
  ["histories", "inputs", "fault_sequences"], "every arrival sequence including gaps longer than the history, bursts larger than it, stale and unknown-satellite measurements",
  "The tests feed regularly spaced measurements for a short time.",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_estimator.h"],
  [("staleness and unknown-satellite checks before insertion", "core/ekf/rtk_ekf_estimator.cxx"), ("pruning of old measurements and states", "core/ekf/rtk_ekf_estimator.cxx")],
  [("snapshot history", "", "core/ekf/rtk_ekf_estimator.h"), ("measurement queue", "", "core/ekf/rtk_ekf_estimator.h")],
  ["returned error", "state before and after"])
p("C13", "Each satellite observation is used with its own satellite and constellation",
  "When a bundle of satellite observations is fused, every observation reaches the measurement model exactly once, with its own pseudorange and doppler, the orbit information of the satellite it names and that satellite's constellation (hence the right receiver clock), whatever mix of constellations and satellites the bundle contains and in whatever order. Satellite orbit information is refreshed for the time and receiver position it is used at.",
  ["inputs", "histories"], "every bundle composition over constellations and satellite numbers, repeated fusion after rewinds",
  "No test fuses bundles of more than one constellation and looks at what reaches the model.",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_impl.cxx", "common/satellite/satellite_cache.h"],
  [("bundle to model data conversion", "core/ekf/rtk_ekf_estimator.cxx")], (), ["arguments of the observation model"])
p("C14", "GPS ephemerides are assembled only from one issue of data",
  "Feeding navigation subframes in any order, with losses, repetitions, damage and changes of issue in between, yields an ephemeris exactly when, of each of the three ephemeris subframes, one has been received since the last yield and the latest of each name one single issue, and every decoded field (reference times in the week closest to the time of transmission included) of what is yielded equals the value broadcast in that issue. Words that do not carry the subframe preamble, or other subframes, change nothing. Yields repeat for every later complete issue.",
  ["histories", "fault_sequences", "inputs"], "every interleaving of subframes of several issues with losses, repeats and junk, all field values",
  "The test feeds one clean recorded sequence.",
  ["common/ephemeris/gps.cxx", "common/ephemeris/gps.h", "common/ephemeris/bit_tools.h"],
  [("issue-of-data comparison over the three subframes", "common/ephemeris/gps.cxx")],
  [("collected subframes and their issues", "", "common/ephemeris/gps.h")], ["return value of parse", "decoded fields"])
p("C15", "Galileo ephemerides are assembled only from valid pages of one issue",
  "Feeding navigation pages in any order, with losses, repetitions, damage and changes of issue in between, yields an ephemeris only when every ephemeris word of one single issue, for the expected satellite, has been received in pages that pass the integrity check, and every field yielded (times and week number included) equals the value broadcast. Pages that are alerts, are wrongly paired, or fail the integrity check change nothing.",
  ["histories", "fault_sequences", "inputs"], "every interleaving of pages of several issues with losses, repeats, damaged pages and alerts, all field values",
  "The test feeds one clean recorded sequence.",
  ["common/ephemeris/galileo.cxx", "common/ephemeris/galileo.h", "utils/crc.cxx"],
  [("page CRC", "common/ephemeris/galileo.cxx"), ("issue-of-data comparison", "common/ephemeris/galileo.cxx")],
  [("collected words and their issues", "", "common/ephemeris/galileo.h")], ["return value of parse", "decoded fields"])
p("C16", "GLONASS ephemerides are assembled only from valid strings of one frame",
  "Feeding navigation strings in any order, with losses, repetitions, damage and frame changes in between, yields an ephemeris only when the fifth string arrives and strings one to five have all been received intact since the receiver's frame time mark last changed, and every field yielded equals the value broadcast. Strings that fail their parity check or are too short change nothing (damage to a single check bit leaves the information intact and is accepted).",
  ["histories", "fault_sequences", "inputs"], "every interleaving of strings of several frames with losses, repeats and damaged bits, all field values",
  "The test feeds one clean recorded sequence.",
  ["common/ephemeris/glonass.cxx", "common/ephemeris/glonass.h", "utils/crc.cxx"],
  [("Hamming check", "utils/crc.cxx"), ("frame time mark", "common/ephemeris/glonass.cxx")],
  [("collected strings and their frame mark", "", "common/ephemeris/glonass.h")], ["return value of parse", "decoded fields"])
p("C17", "The receiver byte stream yields exactly the valid messages it carries",
  "For every byte stream, however it is split into chunks, the listeners are told of exactly those messages whose header, length and checksum are intact, in order, with the payload bytes that were sent, and only those of the class and type they subscribed to; the count of messages, whether one is in progress, and the version and module name reported by the receiver follow from the same messages. Bytes between messages, truncated, oversized or corrupted messages, and messages without payload never stop the parser from finding the next intact message: a message that has begun extends over the length it announces (nothing when that exceeds the buffer), and everything that begins after that is found. A completed message is never part of another one, and no input makes the parser throw or touch memory outside its buffer.",
  ["histories", "inputs", "fault_sequences"], "all byte streams, all payload lengths from zero up, all chunkings, corruption at every byte",
  "There is no test of the parser at all.",
  ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h"],
  [("byte-wise frame automaton with checksum", "parsers/ubx/ubx.cxx")],
  [("parse state and buffer", "", "parsers/ubx/ubx.h")], ["listener calls"])
p("C18", "Messages sent to the receiver are well framed and carry what was asked",
  "Every message sent to the receiver has the sync bytes, class, type, little-endian length, payload and checksum that the receiver protocol prescribes, for every class, type, payload length up to the message buffer and payload content. Every configuration request (message rates, configuration values and queries, navigation rate, dynamic mode, protocols, survey-in, version poll) carries exactly the values asked for in the form that the reported protocol version calls for, and nothing left over from an earlier message, in every order of requests, polls and incoming traffic; a version poll succeeds exactly when a version message answers it.",
  ["inputs", "histories"], "all classes, types, payload lengths and contents; all orders of requests and replies",
  "There is no test of the sender at all.",
  ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h"],
  [("frame and checksum writer", "parsers/ubx/ubx.cxx")], (), ["bytes handed to the port", "bytes parsed back by the receiver parser"])
p("C19", "Ambiguity resolution returns the true best integer vectors",
  "For every real-valued estimate and positive-definite covariance, integer ambiguity resolution returns an integer vector that minimises the covariance-weighted squared distance to the estimate over all integer vectors, and the reported ratio is that minimum divided by the second smallest value over distinct integer vectors. This does not depend on the conditioning or correlation of the covariance, the dimension, the number of candidates requested (two or more) or an integer shift of the estimate.",
  ["inputs"], "all dimensions, estimates (ties and half-integers included) and positive-definite covariances",
  "The tests compare a few recorded problems.",
  ["core/solver/lambda.cxx", "core/solver/lambda.h"],
  [("decorrelation and depth-first search", "core/solver/lambda.cxx")], (), ["fixed vector", "ratio"])
p("C20", "Generated filter code equals the dense Kalman filter for its model",
  "For any filter model description, the generated propagation and update code computes the covariance and state that the dense textbook equations give for the same Jacobians, noise and measurement, including variable-sized states and measurements. Blocks of the Jacobians that the description declares structurally zero are the only ones skipped. A measurement whose squared normalised innovation exceeds the limit of its declared probability (chi-square with one degree of freedom fewer than its size, as the code documents) leaves state and covariance untouched and is reported as rejected. The initial covariance made from given variances is their diagonal matrix. Code can be generated and compiled for every description whose entries are of the supported kinds.",
  ["programs", "inputs"], "all model descriptions (states, inputs, measurements, sparsity), all Jacobian and covariance values, all sizes of variable parts",
  "The generated tests cover the two model descriptions in the tree with random values.",
  ["core/ekf/ekf_gen/ekf_gen.py", "core/ekf/ekf_gen/ekf_gen_state.py", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py", "core/ekf/ekf_gen/symb_block_matrix.py", "core/ekf/ekf_gen/symb_algebra.py", "core/ekf/ekf_gen/symb_matrix.py"],
  [("symbolic block products", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py"), ("code templates", "core/ekf/ekf_gen/ekf_gen_templates.py")], (), ["generated predict and update functions"])
p("C21", "Configuration lookups return exactly what the file says",
  "Looking up a scalar, string, vector, matrix or list under any (nested) key returns the value written in the configuration file under exactly that key, row by row for matrices, and says it found it. A key that is absent, at any level of nesting (below a scalar or a list too), is reported as not found and leaves the caller's default as it was, and stops the program if and only if it was required. So does a value that is not of the requested type, a list with an element that is not, or a matrix from a list of another size, except that it never stops the program. Lookups never change the configuration: the same lookup gives the same answer whatever was looked up before.",
  ["inputs", "histories"], "all configuration trees, keys and lookup sequences",
  "The tests look up a few keys in one file.",
  ["utils/config.h"],
  [("nested key walk", "utils/config.h")], (), ["Config::get"])
p("C22", "Vehicle controllers respect their limits, never wind up, and waypoints are followed in order",
  "A controller's output is always within its configured limit, of either sign, and equals the sum of its proportional, integral and derivative terms whenever that sum is within the limit. When the output saturates because of the integral term, the stored integral is cut back to what just reaches the limit, so it leaves saturation as soon as the error changes sign; and with integration switched off the stored integral does not change and is left out of the sum. The waypoint follower starts at its first waypoint, moves on to the next one, cyclically, exactly when it is closer than its threshold, and always commands a speed and a turn rate within its limits that turn it towards its waypoint.",
  ["histories", "inputs"], "every sequence of errors, time steps, gains, limits and integration switches; every list of waypoints and sequence of positions",
  "There is no test of the controller on its own.",
  ["sim/controllers/pid.cxx", "sim/controllers/pid.h", "sim/dynamics/car.cxx", "sim/dynamics/car.h"],
  [("saturation and anti-windup", "sim/controllers/pid.cxx"), ("waypoint follower", "sim/dynamics/car.cxx")],
  [("integrator", "accumulated error", "sim/controllers/pid.h")], ["controller output", "stored integral"])
p("C23", "Simulated sensors sample at their rate and deliver ephemerides in turn",
  "A simulated sensor produces a sample at the first step that is at least one sampling period after its previous sample (or after its start) and at no other step, stamped with the current time, whatever the sequence of step sizes; each satellite sample has exactly one observation per satellite with the satellite's own identity, stamp and range. Without noise, an inertial sample reports the body's specific force (acceleration along its path less gravity, in its own frame) and turn rate, and a satellite's carrier phase differs from its range by the same whole number of cycles in every sample. Recorded ephemerides are released one at a time and constellation by constellation, in recorded order, each exactly once, as soon as they are asked for at or after the time they were recorded and never before, and running out of them is not an error.",
  ["histories", "configurations"], "every sequence of query times, every rate, every recorded set of ephemerides (empty ones included)",
  "There is no test of the simulated sensors.",
  ["sim/sensors/gnss.cxx", "sim/sensors/imu.cxx", "sim/sim.cxx"],
  [("previous sample time", "sim/sensors/gnss.cxx"), ("carrier phase offsets", "sim/sensors/gnss.h")],
  [("ephemeris queues", "recorded ephemerides not yet released", "sim/sensors/gnss.h")], ["sample/sampleXxxEph results", "callbacks of a simulator step"])
p("C24", "A log stream's declared record layout is the layout of its records",
  "For every type of record that can be logged, the layout declared in the stream's header (field names, order, element types and counts) describes exactly the bytes written for each record, so that a reader that knows only the header, such as the Python one, splits the stream into its records and fields, at the times of their stamps. Writing a record and reading it back gives equal values for every field the record declares.",
  ["inputs", "programs"], "all record types, combinations of types in one stream, and values",
  "The tests log a few types and read them back through the same code, which never consults the header.",
  ["common/logging/serialize.h", "common/logging/log_writer.h", "common/logging/log_format.h", "common/ephemeris/gps.h", "common/ephemeris/galileo.h", "common/ephemeris/glonass.h", "common/measurements/imu.h", "common/measurements/gnss_observation.h", "common/logging/log_reader.py"],
  [("type descriptions", "common/logging"), ("serializers", "common/logging/serialize.h")], (), ["stream header and bytes on disk"])
p("C25", "Inertial preintegration keeps exactly the samples of its interval",
  "A preintegrated inertial interval starts and ends at its first and last samples, counts each accepted sample once, and refuses samples that do not advance time by the time quantum; what it accumulates (velocity, position and angle increments, their covariance and their sensitivity to the biases, and the end state under gravity) is that of exactly its samples, counted from its bias. Splitting it at an inner instant gives two intervals that meet at that instant (to half a time quantum), together span the original interval and contain each original sample exactly once, before or after the split, with the input at the split interpolated between its neighbours; both can be continued and split again. As a measurement between two states its residual is zero where the second is the end state from the first, and otherwise the displacement, velocity and rotation that separate the second state from that end; the Jacobians asked for are the derivatives of that residual, at any pose and bias. (An instant nearer to a sample than the time quantum, but not on it, may be refused.)",
  ["histories", "inputs"], "all sample sequences and all split instants, including instants on a sample and repeated splits",
  "The test splits one regular interval once.",
  ["models/imu_model.cxx", "models/imu_model.h"],
  [("sample history and split", "models/imu_model.cxx")],
  [("history", "samples with accumulated state", "models/imu_model.h")], ["t0/tf/numUpdates of both halves", "end state"])
p("C26", "Bit fields and checksums match their published definitions",
  "Reading a bit field (most significant bit first) of any position and supported width, signed or unsigned, from a byte buffer returns the value those bits hold (sign-extended two's complement for signed fields), and writing a field changes exactly its bits so that reading returns what was written. The page checksum and the string parity check accept exactly the code words of their published codes, so any damage of one or two bits is noticed, except that, as the string code is defined, a string whose only damaged bit is one of its seven partial check bits is accepted (its information is intact).",
  ["inputs"], "all buffers, bit positions, widths and values; all single-bit and double-bit damages of code words",
  "The tests check a few constants.",
  ["common/ephemeris/bit_tools.h", "utils/crc.cxx"],
  [("getBit/setBit", "common/ephemeris/bit_tools.h"), ("CRC table", "utils/crc.cxx"), ("Hamming masks", "utils/crc.cxx")], (), ["returned values"])
p("C27", "Rotations and rigid motions compose, act and convert as motions do",
  "Rotations and rigid motions, whether held as (dual) quaternions or as matrices, in their own memory or over the caller's, form groups: composition is associative with the identity and inverses, in place and with itself as operand too. Their active and passive actions on points (one or several at once), the adjoint and the rotation matrix agree with composition and keep distances. Taking one apart and building it again (rotation and translation, elements, matrix, axis and angle, Euler angles away from vertical pitch) gives the same motion, and the rotation between two directions, opposite ones included, takes one to the other. The logarithm undoes the exponential below half a turn and the exponential undoes the logarithm everywhere, near no rotation, near half a turn and for either sign of the quaternion, with and without Jacobians, which are the derivatives of the maps.",
  ["inputs", "histories"], "all rotations and motions (identity, half turns and both quaternion signs included), vectors of any number of columns, and operand aliasing",
  "The tests compare random motions with one another; the special cases they pass by chance are where the branches are.",
  ["common/math/quat.h", "common/math/dquat.h", "common/math/so3.h", "common/math/se3.h"],
  [("small-angle branches", "common/math/quat.h"), ("small-angle branches of the logarithm", "common/math/dquat.h"), ("matrix logarithm near half a turn", "common/math/so3.h")], (), ["returned rotations, motions, vectors and Jacobians"])
p("C28", "Satellite states are those of the orbit and the clock that the ephemeris describes",
  "For every current broadcast ephemeris (not further than two hours from its reference time) and every instant, the computed GPS or Galileo satellite position, velocity, clock bias and clock drift are those of the Keplerian arc, its harmonic corrections, the turning node and the clock polynomial (with the relativistic term) that the ephemeris describes, each counted from its own reference time, at perigee and apogee too; the velocity is the rate of change of the position and the drift that of the clock. An ephemeris that is not current gives no state. A GLONASS state at the reference time is the broadcast one, states elsewhere do not depend on how the time was reached, conserve the energy (and the angular momentum, if nothing pushes sideways) of the turning frame, and turned or mirrored initial states give turned or mirrored results. The travel time of the signal is found in bounded time.",
  ["inputs", "histories"], "all ephemerides (eccentricity below one half) and instants up to two hours from the reference time",
  "The tests compare a few instants with another implementation, with no clock terms and equal reference times.",
  ["common/satellite/satellite_state.cxx", "common/satellite/satellite_cache.cxx", "common/math/rk4.h"],
  [("Kepler's equation and corrections", "common/satellite/satellite_state.cxx"), ("clock polynomial", "common/satellite/satellite_state.cxx"), ("fixed-step integration", "common/satellite/satellite_state.cxx")], (), ["SatelliteState"])
p("C29", "Measurement models predict what should have been measured and differentiate it truthfully",
  "Given the receiver's pose, lever arm, velocity, clock and the frames in between, the pseudorange model's residual is the weighted difference of computed and measured pseudorange and range rate (line of sight at the time of transmission, turning of the earth, clocks, atmosphere) and of the switch from one; the carrier phase model's residual is the weighted difference of measured and computed change of phase between two epochs of one satellite and frequency (and it refuses others); the clock model's residual compares biases, rates and switches across the time between two epochs; the pose prior's is the weighted logarithm of the difference from its anchor. An evaluation depends only on what the model was made of and on the parameters given, not on earlier evaluations nor on which Jacobians are asked for; each Jacobian asked for, and only those, is the derivative of the residual, for correlated measurements too. Making a model always ends, also for a signal sent at the switch from one ephemeris to the next.",
  ["inputs", "histories"], "all geometries, clocks, weights (correlated ones included), switch values and subsets of Jacobians",
  "The tests check identity weights and one geometry, mostly against the model's own differences.",
  ["models/prange_model.cxx", "models/relative_carrier_phase_model.cxx", "models/gnss_dynamics_model.cxx", "models/pose_error_model.cxx"],
  [("time of transmission", "models/prange_model.cxx"), ("Jacobians under correlated weights", "models/prange_model.cxx"), ("residual path with and without Jacobians", "models/pose_error_model.cxx")], (), ["residuals", "Jacobians"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
