"""Technique and level note per property, for MANIFEST.json."""
PBT = 'property-based testing: '
SAN = ' Built with ASan+UBSan; out-of-bounds accesses, leaks-by-count and hangs are failures too.'
NOTES = {
    'U01': (PBT + 'stateful, model-based (std::deque reference)',
            'Random operation sequences on 7 FIFO/buffer instantiations (bounded, unbounded, with non-trivial and throwing elements) against a queue model.' + SAN),
    'U02': (PBT + 'stateful, model-based (queue of byte strings)',
            'Random push/append/abort/pop/clear histories, including zero-length messages and wrap-around, against a queue model.' + SAN),
    'U03': (PBT + 'randomised two-thread schedules under ThreadSanitizer',
            'Generated producer/consumer programs on two real threads with injected yields; the received sequence is compared with the produced one and TSan decides on data races. Interleavings are sampled, not enumerated.'),
    'U04': (PBT + 'stateful, model-based (shadow allocations), with injected allocation failures',
            'Every live allocation is checked for alignment, overlap and content after every step.' + SAN),
    'U05': (PBT + 'stateful, model-based, with injected exceptions and allocation failures',
            'Counts constructions and destructions of every callable, and bytes in the configured allocator.' + SAN),
    'U06': (PBT + 'stateful, model-based (list of connections)',
            'Random connect/disconnect/call histories against a list model.' + SAN),
    'L01': (PBT + 'round-trip and invariant over generated messages and splits',
            'Random messages, splits, configurations and injected carriage returns; every encoded byte is checked, the decoded message compared.' + SAN),
    'L02': (PBT + 'stateful, model-based (two reference byte sequences)',
            'Random interleavings of debug messages and terminal data over random chunkings, against the two sequences that were put in.' + SAN),
    'L03': (PBT + 'stateful, round-trip against a reference frame parser',
            'Random message histories, MTUs, splits and resets; the frames are parsed independently.' + SAN),
    'L04': (PBT + 'differential against a bitwise reference CRC, with generated bit flips',
            'Round-trip, one- and two-bit corruption and short frames, against an independent bitwise CRC.' + SAN),
    'L05': (PBT + 'generated protocol stack compositions, round-trip with MTU probes between layers',
            'Random stacks of up to all layers with probes that check every frame against the MTU announced below it.' + SAN),
    'L06': (PBT + 'stateful two-party simulation over a generated lossy channel, model-based (sent and received message sequences)',
            'Two ArqLayers, optionally with other layers, over a channel that drops, delays and corrupts frames as generated, with (patient) retransmits, resets, restarts; exactly-once in-order delivery is compared with the sent sequences. One known finding (double restart).' + SAN),
    'L07': (PBT + 'stateful client/target simulation over a generated lossy channel, model-based',
            'An independent client of the documented protocol against DebugArqLayer; counts executions and compares responses under generated losses and duplicates. One known finding (reset during a partial request).' + SAN),
    'L08': (PBT + 'round-trip and differential (C++ encoder, C++ and Python decoders), fuzzing of the decoder',
            'Random data of several compressibility classes, splits and message sequences; Python decodes what C++ encodes.' + SAN),
    'L09': (PBT + 'structured fuzzing of generated protocol stacks, with a recovery oracle',
            'Random, token-based, mutated and replayed frames into random stacks, while the application responds; afterwards a reset and regular messages must round-trip.' + SAN),
    'L10': (PBT + 'differential between the C++ and Python implementations (Hypothesis, with a C++ helper process)',
            'Random mirrored stacks in C++ and Python, with messages in both directions; debug ARQ with the Python client over a lossy channel.'),
    'S01': (PBT + 'generated store descriptions (Hypothesis), model-based lookup oracle, fuzzed lookup texts',
            'Random scope trees, names and arrays; the generated directory is interpreted by the real C++ find() and list() and compared with a list of declared names. C++ runs with ASan and UBSan.'),
    'S02': (PBT + 'generated store descriptions (Hypothesis), compiled and compared with an independent reading of the description',
            'Each case is a generated description that is run through the real generator, compiled for both byte orders, and dumped by the real code; types, sizes, initial values, alignment, members and hashes are compared. C++ runs with ASan and UBSan.'),
    'U10': (PBT + 'differential against long double arithmetic and byte-wise reference functions',
            'All pairs of 15 arithmetic types with boundary-biased values; endianness and string helpers on exactly-sized buffers.' + SAN),
    'S03': (PBT + 'stateful, model-based (every variable of two store instances), differential over all access routes',
            'Random reads, writes and copies over 15 write and 14 read routes (typed, untyped, by name, via map and free variables), on unaligned exactly-sized buffers, in three build configurations (little endian, big endian, no unaligned access).' + SAN),
    'S04': (PBT + 'stateful, model-based (expected hooks and notifications per access)',
            'The same histories as S03, with all hooks logged together with the store contents at that moment, and with signals connected and disconnected.' + SAN),
    'S05': (PBT + 'stateful, model-based (log of function invocations)',
            'Random calls over 18 routes per function type, for fixed-size and string/blob functions, unaligned buffers, several stores, over 255 functions.' + SAN),
    'D01': (PBT + 'stateful, model-based (a reference debugger over the expected store contents)',
            'Histories of commands, valid and invalid, over one to three mapped stores, mapped and unmapped (and destroyed) in between; every response, every variable and every function invocation is compared. Three configurations.' + SAN),
    'D02': (PBT + 'structured fuzzing of requests (random, mutated, token-based) in generated states',
            'Every request must give exactly one complete response; refused ones may not change or call anything; echo, reads and memory protection are checked afterwards.' + SAN),
    'D03': (PBT + 'stateful, model-based (expected stream contents), round-trip through an independent decompressor',
            'Writes, reads, flushes, trace configurations and trace calls over up to 5 streams, of which 3 fit; with and without compression and dynamic memory.' + SAN),
    'D04': (PBT + 'model-based (a copy of the memory)',
            'Reads and writes of every alignment and length in an exactly-sized buffer, and malformed ones.' + SAN),
    'Y01': (PBT + 'model-based (last value per variable) over generated trees, histories and delivery schedules',
            'Up to 6 processes with up to 3 stores (8, 16 and 32-bit keys), one or two synchronizers per process, optional segmentation of messages with any MTU; writes, processing (of all, per store, per connection) and delivery of messages in any order; both byte orders.' + SAN),
    'Y02': (PBT + 'invariant over the history (per-writer order of values at every process after every message), hooks compared with the messages',
            'The same histories as Y01, with a full check of all values of the receiving process after every delivered message.' + SAN),
    'Y03': (PBT + 'fault injection (cuts, graceful disconnects, resets, restarts, remapping of stores) in generated histories, against the set of allowed values',
            'Faults at any moment, with messages in flight (which are lost by a cut); reconnection by new, kept or reset connections at either side. A kept connection is only reused after the new Hello is received: the protocol has no session number, so ids of an old session can otherwise not be recognized.' + SAN),
    'Y04': (PBT + 'structured fuzzing of messages (valid ids, ranges around all limits, mutations, replays, truncations) against an exact model of the stores',
            'A malicious peer at any process in a tree of synchronizing processes, as source or as sink; every message and every reply is compared with the model; the honest processes must still converge.' + SAN),
    'Y05': (PBT + 'stateful, model-based (set of changed variables per observer), round-trip of the updates',
            'Histories with up to 40 variables and 4 observers, key sizes of 1, 2 and 4 bytes, sequence numbers around all internal thresholds up to 150000 bumps at once, cleanups, remote updates and full replacements.' + SAN),
    'U07': (PBT + 'model-based over 140 pseudo-random compositions of all segment types, stateful histories; differential for casts, maps, bounds',
            'Compositions of 1 to 5 segments of int and string, with copies, connections, triggers, gates and a fake clock; networks of connected pipes and groups; extreme numbers.' + SAN),
    'U09': (PBT + 'stateful, model-based (registered entries and kernel-level readiness), over all pollers and pollable types',
            'Histories of add/modify/remove/poll over pipes, sockets, files, closed and invalid descriptors, ZeroMQ sockets and layers, with the poll(2), ZeroMQ and loop pollers and the old and new API; each poll result is compared with a direct poll(2) / zmq_getsockopt.' + SAN),
    'L11': (PBT + 'stateful, model-based (bytes in flight per direction), with blocking peers in threads',
            'Histories of send, receive, wait, close, reopen and reset over pipes, socket pairs, named and double pipes, files, ptys, serial ports, stdio, XSIM, ZeroMQ and FIFO loopbacks, in part beyond the OS buffers.' + SAN),
    'U08': (PBT + 'stateful, model-based (the documented equations in long double, with derived error bounds)',
            'Histories of inputs, parameter changes, resets, overrides, enables and assignments, for every component with any subset of its settings in the store, for float, double and integer types; ramps are checked against their speed and acceleration limits and time to arrive.' + SAN),
    'C01': (PBT + 'stateful, differential between the Python client and the state of a real C++ target process',
            'Histories of client operations with target changes at any request, controlled time (timers, response latency, event loop), three ways to map two stores, normal and scarce aliases, macros, and stream buffers; every reported value, trace sample, CSV cell and change in the target is compared with the history of the target.'),
}
NA = {
    'C02': 'Deciding it takes a VHDL simulator for the FPGA store (the code in /repo/fpga is VHDL plus a VHDL testbench protocol); none is installed and none can be fetched, and random testing cannot run the property without executing that code.',
}
