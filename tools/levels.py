TECH = 'contract-based deductive verification of the LLVM IR of the real headers (own verification-condition generator, z3); replay by bounded search of the real containers'
NOTE = ('Proved for all inputs and table sizes for %s; every other container and build configuration of the property is covered by the bounded stand-in (random histories against a '
        'reference model), which is not counted as proof. Assumes the callback, allocator and arithmetic assumptions listed in the evidence.')
BUF = ' (separate metadata and node buffers, SSE2 groups of 16)'
DEEP = ' (the thorough tier adds %s)'
LEVELS = {}
MAP, BOTH = 'sparse_map' + BUF, 'sparse_map and sparse_set' + BUF
for i, t in (('C01', MAP + DEEP % 'sparse_set'), ('C02', 'dense_set')): LEVELS[i] = ('proof', TECH, NOTE % t)
for i in ('C03', 'C10', 'C12'): LEVELS[i] = ('proof', TECH, NOTE % (MAP + ' and dense_set' + DEEP % 'sparse_set'))
for i in ('C06', 'C07', 'C13', 'C14', 'C15', 'C16'): LEVELS[i] = ('proof', TECH, NOTE % (BOTH + ' and dense_set'))
LEVELS['C11'] = ('proof', TECH, 'Proved by bit-vector solving for every legal 16-byte group (SSE2, SSSE3) and every legal 8-byte group (portable) and every hash fragment, and for the bit scans on every word; NEON and MSVC variants are not compiled here. Mask iteration is unrolled to the group width with the bound as an obligation.')
