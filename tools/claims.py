CLAIMED = {
'C01': 'Every Write*/Read* primitive is under contract (emitted byte string, size, result); the round trip is the composition of each writer contract with the reader contract on the same spec function, proved for all values, lengths and transport fragmentations. Floats are reals with uninterpreted bits; lengths below 2^31.',
'C02': 'Writer contracts give the exact byte layout and the size update for every value; WriteInt32Array for every array of at most 32767 elements.',
'C03': 'Value tree layout is a recursive specification function; every Value Write emits it, ReadValue of those bytes returns an equal tree (structural equality defined per kind by the Read contracts, induction over the tree through the callee contracts, loops by invariants), for every tree. Put/Get/Add of the containers are under contract for every native type.',
'C04': 'Every pack Write emits exactly the field layout of its kind (specification functions over the pack fields); WritePack prefixes the type code; ReadPack/Read of those bytes return equal fields for the kinds the agent receives; CreatePack maps codes to kinds.',
'C05': 'Every step type has a byte-layout contract on its Write; the step list is the concatenation of code byte and body for every list of steps.',
'C06': 'Loop invariant of Hash: the register after k bytes is the bitwise IEEE CRC-32 register; the step through the 256-entry table (read from the package initialiser) is proved equal to the bitwise step by z3 bit-vectors, for all registers and bytes.',
'C07': 'IpToBytes contract over strings.Split/strconv.ParseUint (trusted, as functions of the text): exact bytes when all four parts are octets, all zero otherwise, length 4, no panic, no write to existing memory.',
'C10': 'Contracts on the UDP framing functions: every datagram written is CAFE+payload, CAFN+int16 count+payloads, or CAFM fragments with key, total, index and length-prefixed slice; loop invariant: fragments 0..k-1 emitted are the consecutive slices, and their concatenation is the payload, for every payload length, count and maximum size.',
'C11': 'Queue contracts over a ghost model of the channel: AddBuffer enqueues or drops the new one without blocking, the sender loop sends every dequeued buffer exactly once and in order (loop invariants over the buffer list), splitting before the size limit; proved for every sequence of buffer lengths. Channel values are an uninterpreted sequence; one goroutine verified at a time.',
'C08': 'strmatch contracts: a pattern matches exactly the texts of the form prefix+*+middle+*+suffix (mid/first/last classification and the two-star forms) for every text and pattern of any length, stated over positions of characters in the text (at/occ/idx/sub); the pattern-list constructor and the list match are contracts over the entries of the comma split (trusted split). No bound on lengths.',
'C09': 'Sampling decision as a function of configuration, error, elapsed time, the service name\'s pattern group and the random draw (a ghost): every documented row of every band and rate is a postcondition of the sampler functions, for all inputs, rates and draws; the sampler\'s state is proved to follow the configuration at every refresh.',
'C12': 'Every exported step operation (AddStep, AddMessageStep, AddHashedMessageStep, AddPMessageStep, StartMethod, StartCustomMethod, EndMethod) records or opens exactly its step in the collector of the context\'s transaction. Collector invariant (buffered steps, their encoded bytes, the parent counts) preserved by Push/Add/Pop/Process/Close; SendProfile emits batches whose concatenation is exactly the held steps in order, with transaction, service, count and size, for every list of steps, buffer and datagram size (loop invariants over stream sums).',
'C13': 'Per kind, a contract on Send<Kind> over the kind\'s bounded cache: empty text returns 0 and sends nothing; a known text sends nothing and stays known; a new text queues exactly one text message (kind, CRC-32 identifier, text) and becomes known, evicting exactly the oldest when full. ResetTextSent empties all eleven caches; the package initialiser is proved to create eleven distinct caches. For every text, cache content and history (the cache invariant is inductive).',
'C16': 'Invariant of each cache (order list and table describe the same keys, at most the capacity) preserved by every operation; Add has separate cases for an existing key, room and full, the full case evicting exactly the oldest key; lookups, size, emptiness and listing are functions of the table; lock obligations exclude blocking on the own lock. Container libraries (container/list, gods) are trusted models.',
'C17': 'Ring invariant (301 distinct buckets, position = second mod 301) kept by every meter operation; getPosition is proved, by loop invariants, to clear exactly the buckets of the seconds that passed, for every gap; Add changes only the bucket of the current second; GetAllCounter returns sum/mean/rate of the buckets of the last min(period,300) seconds (sums by induction over the search loop), for every ring content, gap and period >= 1. The clear and create callbacks are verified against function specifications. Clock assumed monotone; floats are reals.',
'C18': 'Every key-to-field binding (64 settings) is a postcondition of addToConf over the content of the property set, with the description entry of each key; Refresh is proved for every environment (fold over the entries, loop invariant), file state and stat/load error: reload exactly when the file is missing or newer, file over environment, empty values dropped, unreadable or unparsable files leave every setting, observers notified once per reload. The properties library and the file system are trusted models.',
'C21': 'Locks are ghost state: every access to guarded state is an obligation "lock held (for writing)", every release, exit, re-acquisition, nested acquisition and one-critical-section rule an obligation, on all paths of every operation on the caches, meters, id generator, observer registry and configuration descriptions. Atomicity follows from data-race freedom plus one critical section per operation; goroutines are verified one at a time.',
'C24': 'Postconditions on the pack handed to the sender, entry by entry: meter figures are those GetAllCounter(30) (300 for the five-minute report) returned in this call, runtime figures and rates from the previous sample, names, object, type; the heartbeat fields and its preceding text message. GetActiveCount: each counter equals the sum over the first 2000 services of the band of its elapsed time at the call\'s clock reading (loop invariants, for every active set and thresholds).',
'C14': 'Contracts on every entry point of the transaction life cycle (end, async end, endAny, forced ends): a ghost count of meterings, elapsed time, error flag and summary sent; a second end changes and sends nothing; the summary is specified field by field from the recorded transaction, its profile totals equal the collector\'s step and byte totals (C12 contracts), and the sampling decision decides exactly what is discarded. For every transaction state, outcome and configuration.',
'C15': 'Contracts on the start, inherit, async-child and API-call functions: identity fields (root, caller, self) as functions of the parent\'s fields and the generated id, the parent\'s recorded step, the header texts written to the request as the Scouter text form of those ids (encoder proved to decode back for every 64-bit id), and the exact update of call count, elapsed time and first error when a call ends.',
'C23': 'Every decoding function has a second contract with no assumption about the bytes: it returns (panic-freedom is an obligation on every instruction), a ghost counts the bytes received, every loop that receives input must receive at least one byte per iteration (loop invariant), every allocation sized by input is bounded by the bytes received, and the recursion of nested values has a decreasing measure bounded by the depth limit. For every byte sequence and fragmentation.',
'C22': 'Barrier contracts: each entry point is proved to return for arbitrary arguments while every call to an internal function may panic, return anything and change any memory (failure injected at every call, by assumption); only the panic handler, the reporter it calls and the stack formatter are proved to return. A second contract per annotation call, for a context without transaction, has an empty frame and no events; a traced context is returned unchanged by a start; a started context is never nil. GoWithTrace emits exactly one goroutine start and one run of the application function on every path. An effect check over the static call graph excludes waiting operations. Custom Stringer/fmt behaviour and mutex waiting (C21) are trusted.',
'C19': 'Contracts for every name string: the files opened or removed, as events with their path, are exactly dumpdir/name for a plain name (for profile downloads and deletion: a plain name with the profile suffix), otherwise none and nothing is written. The reply loop has clauses on one arbitrary iteration: reads continue exactly where the last one ended, each appends marker + blob of exactly the bytes read, and the loop ends at end of file with the whole content sent (or at a read error). Listing: for one arbitrary directory entry the walk function appends name and size of the file to the right lists, nothing for directories, unreadable entries or (binary list) other suffixes, keeps no state and never stops the walk.',
'C20': 'The session loop has clauses on one arbitrary iteration (entry/iteration/leave): the bytes on the connection grow by exactly the streamed blocks, the marker and length-prefixed result if there is one, and the end marker; one frame read and one command handled per iteration, with the command and parameter decoded from that frame; no iteration continues after a read or write error; the opening bytes. The dispatch has one case per command (handler run once, with the parameter, its result returned; unknown commands run nothing). A third contract proves the dispatcher returns whatever fails inside a handler.',
}
NA = {
'C25': 'Liveness over wall-clock time, sockets and a reconnect loop without termination: no functional contract on one call expresses "eventually reconnects", and the technique here proves partial correctness only.',
'C26': 'A probabilistic statement about math/rand and process start times; a contract can state which bits are combined but not that draws do not collide.',
}
