NA = {
 'C29': 'copy_hostent() builds a self-referential struct (pointer tables, then addresses, then strings) inside one caller-supplied '
        'character buffer of symbolic size; every step reinterprets those bytes as pointers, and CBMC 6.11 has no decision procedure '
        'for byte-level pointer stores at symbolic offsets that answers here (the loop contracts over the pointer tables need a '
        'quantified invariant over reinterpreted memory). No contract that decides it was within reach.',
}
