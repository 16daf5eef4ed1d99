NA = {
 'C31': 'Lock-free readers racing with a writer: contracts with CBMC/dfcc describe one sequential execution; the property quantifies over interleavings of unlocked atomic accesses, for which no deductive verifier for C with a concurrency logic is installed.',
 'C32': 'Linearizability quantifies over thread interleavings; the installed contract verifiers for C are sequential. The lock discipline it rests on is decided as C29, the sequential behaviour as C01-C07.',
 'C33': 'The property relates the memory of two processes through kernel page tables; no contract on the library code can express it. The library side (offsets, lengths, flags) is decided as C17, C20, C22, C23.',
 'C34': 'Quantifies over whole programs, process start-up and shut-down order of an interposed allocator; not a property of one call or data structure.',
}
NOT_YET = {'C26', 'C33', 'C06', 'C07', 'C08', 'C09'}
LEVEL = {}
NOTE = {}
