"""Assumptions left unchecked, listed in every evidence file."""
GENERAL = [
    'machine int arithmetic on sizes, indices and gate numbers is treated as mathematical (layers of at most 2^28 gates)',
    'standard library and operating system calls (streams, chrono timers, memset, printf) are dropped: they do not influence the checked values',
    'delete is not modelled; distinct new expressions return distinct memory and do not fail',
    'clang\'s typed AST represents the compiled program (undefined behaviour outside the bounds obligations is not checked)',
]
FIELD = ['field_element operators are used through their contracts (result = residue of the integer operation, canonical); those contracts are the subject of P01-P04']


def assumptions(prop, spec):
    r = list(GENERAL)
    if any(j.startswith('fast') or j.startswith('trad') or j.startswith('blk') for j in spec['jobs']):
        r += FIELD
        r.append('the circuit is well formed as the readers produce it: gate operands inside the previous layer, layers of 2^bit_length gates')
    if any(j.startswith('read') for j in spec['jobs']):
        r.append('the file is well formed: it opens, lists 1 to 999 layers of 2^0 to 2^20 gates in index order (at most 2^8 copies), every number fits in an int, input lines have type 2 or 3')
        r.append('fscanf is trusted to deliver the next numbers of the file; a read is identified by the loop iterations around it')
        r.append('read_circuit_from_string (called by no program of the repository) is not under contract')
    if any(j.startswith('main') for j in spec['jobs']):
        r.append('the verifier and prover methods are used through contracts about the order of their calls; what a verification answers is arbitrary; at most 2^20 copies, command line arguments are decimal numbers')
    return r + spec.get('assume', [])
