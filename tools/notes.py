NOTE = {
 "C01": "seeded search over operation histories and transparent fault patterns; not exhaustive",
 "C02": "seeded search over operation histories with failing file-system calls; not exhaustive",
 "C03": "seeded search over sources, estimates, tunables and faults; not exhaustive",
 "C04": "seeded search over lengths around and far beyond the limits; heap use measured per call",
 "C05": "seeded search over thread interleavings at system call, lock and thread operations",
 "C06": "seeded search over histories with failures, then an audit of names, descriptors and maps",
 "C07": "seeded search over record histories, strategies and transparent faults; not exhaustive",
 "C08": "seeded search over interleavings of writer and reader threads with torn reads and writes",
 "C09": "seeded search over appends with a failing file-system call or a full disk; not exhaustive",
 "C10": "seeded search over process ends at a mutating operation or inside a write; process, not machine, crashes",
 "C11": "seeded search over damage to real archives; not exhaustive",
 "C12": "seeded search over poll orders, thread interleavings, body states and faults on a seeded executor",
 "C13": "seeded search over poll orders, thread interleavings, buffer sequences and faults on a seeded executor",
 "C14": "seeded search over interleavings of streams and sinks sharing permits or a pool; each file operation is watched",
 "C15": "seeded search over points of abandonment and interleavings on a seeded executor",
 "C16": "seeded search over encoded, truncated and corrupted bodies with faults; not exhaustive",
 "C18": "seeded search over archives, options, storage faults and kill points of the real command; not exhaustive",
 "C19": "seeded search over responses, wire timing, cuts, storage faults and kill points of the real command; not exhaustive",
 "C20": "seeded search over logging threads, other scenarios run beside them, and faults of standard error; not exhaustive",
 "C17": "seeded search over peers, wire splittings, delays, cuts, time-outs and thread interleavings in virtual time; not exhaustive",
}
