AI = 'abstract interpretation of MIR with trace partitioning, compared with a specification table'

# id -> (module, function, needs the MIR dump, technique)
CHECKS = {
    'C01': ('determinism', 'run', True, 'whole-program effect analysis over the resolved call graph'),
    'C02': ('safety', 'run', False, 'compiler lint, type-level witnesses and compile-fail twins'),
    'C03': ('fmt', 'run_c03', True, 'abstract interpretation of MIR with injected write failures (error-flow analysis)'),
    'C04': ('opts', 'run_c04', True, AI),
    'C05': ('fmt', 'run_c05', True, AI),
    'C06': ('fmt', 'run_c06', True, AI),
    'C07': ('names', 'run_c07', True, AI),
    'C08': ('parser', 'run_c08', True, AI),
    'C09': ('reject', 'run_c09', True, AI),
    'C10': ('total', 'run_c10', True, AI),
    'C12': ('mirror', 'run_c12', True, AI),
    'C13': ('apply', 'run_c13', True, AI),
    'C14': ('search', 'run_c14', True, 'abstract interpretation of MIR; product of the search loop with a specification automaton, explored to a fixed point'),
    'C17': ('lines', 'run_c17', True, AI),
    'C18': ('classes', 'run_c18', True, AI),
    'C19': ('cover', 'run_c19', True, AI),
    'C20': ('shift', 'run_c20', True, AI),
    'C21': ('hunks', 'run_c21', True, AI),
    'C15': ('mergetab', 'run_c15', True, AI),
    'C16': ('mergeout', 'run_c16', True, AI),
}
