"""Which contracts decide which property."""
import re

MODULES = ['vector', 'matrix', 'special', 'hps', 'solver', 'stages', 'tree', 'interp', 'mpi', 'mesh', 'quadtree', 'options', 'xml', 'refine']

TRUSTED = ['clang 18 parsing and semantic analysis (the AST is what is verified)', 'the verification-condition generator in /verif/vc', 'z3']
ASSUMPTIONS = ['double is treated as the mathematical reals; int and size_t arithmetic is exact (unsigned images of negative values are tracked as wrap32/wrap64)',
               'sizes of vectors and matrices handed to a function are below 2^60',
               'console output, logging and timers have no effect on results']


def key(pat, mod=None, no=None):
    r = re.compile(pat)
    n = re.compile(no) if no else None
    return lambda c: bool(r.search(c.id)) and (mod is None or c.mod in mod) and not (n and n.search(c.id))


ACC = r'^(Vector|Matrix)<'
VALUE = r'^(?!throws|normal return|index in bounds)'
RANGE = r'^(throws|normal return|index in bounds|precondition)'
ALGEBRA = r'^solve|^operator|::operator[-+*]'

HPS_ = r'^HPSAlgorithm<.*>::'
SOL = r'^FiniteVolumeSolver::'

PROPS = {
    'C01': dict(roots=key(HPS_ + '(merge4to1|upwards4to1|buildStage|upwardsStage)'), replay='C01.cpp'),
    'C02': dict(roots=key(HPS_ + '(split1to4|solveStage)'), replay='C02.cpp', obl=r'^(?!a u \+ b)'),
    'C03': dict(roots=key(HPS_ + '(coarsen_|coarsenUpwards_|uncoarsen_|merge4to1|upwards4to1|split1to4)'), replay='C03.cpp'),
    'C04': dict(roots=key(SOL + 'solve'), replay='C04.cpp', variants='five-point'),
    'C05': dict(roots=key(SOL + '(mapD2N|buildD2N|particularNeumannData)|' + HPS_ + '(buildStage|upwardsStage)'), replay='C05.cpp'),
    'C06': dict(roots=key(SOL + 'solve'), replay='C06.cpp', variants='FISHPACK'),
    'C07': dict(roots=key(HPS_ + '(solveStage|leafSolve)'), replay='C07.cpp'),
    'C08': dict(roots=key('', ['vector'], 'blockPermute'), replay='C08.cpp'),
    'C09': dict(roots=key('', ['matrix', 'special'], 'blockPermute|Interpolation|' + ALGEBRA), replay='C09.cpp'),
    'C10': dict(roots=key(ALGEBRA, ['matrix']), replay='C10.cpp'),
    'C11': dict(roots=key('blockPermute'), replay='C11.cpp'),
    'C13': dict(roots=key('^Interpolation'), replay='C13.cpp'),
    'C14': dict(roots=key('^FiniteVolume(Grid|NodeFactory)::', ['tree']), replay='C14.cpp'),
    'C15': dict(roots=key('', ['quadtree']), replay='C15.cpp'),
    'C16': dict(roots=key('', ['mesh']), replay='C16.cpp'),
    'C20': dict(roots=key('^(InterpolantBase|LinearInterpolant)::'), replay='C20.cpp'),
    'C21': dict(roots=key('', ['xml']), replay='C21.cpp'),
    'C24': dict(roots=key('', ['refine']), replay='C24.cpp'),
    'C18': dict(roots=key('', ['options']), replay='C18.cpp'),
    'C19': dict(roots=key('^DataCache<'), replay='C19.cpp'),
    'C17': dict(roots=key('', ['mpi']), replay='C17.cpp'),
    'C12': dict(roots=key('', ['vector', 'matrix']), obl=RANGE, replay='C12.cpp'),
}

NOTES = {
    'C01': 'Proved for every side length, content and data (reals for doubles) for siblings of equal size and one mixed combination of levels, given nonsingular interface systems; dense solves by the assumed contract of dgesv. Stages proved against an arbitrary family of the traversal (cache off).',
    'C02': 'Proved for every side length and content, parents coarsened 0, 1 or 2 times (bounded in that number); traversal of the tree is C15.',
    'C03': 'Proved for every side length and content for selected combinations of levels differing by at most 3 (bounded in the number of levels).',
    'C04': 'Proved for every square patch of n >= 1 cells per side (a single cell included), every geometry, coefficient function, source and boundary data in real arithmetic, given assumed contracts of the PETSc assembly and LU routines (nonsingular system).',
    'C05': 'Proved for every patch size and content (reals), given that the discrete solution is linear in the data (nonsingular system), with the operator cache off; with it on, for leaves of every level 0-29 in two rounds (names of cached operators must be constants in the run, otherwise the replay stands in, bounded).',
    'C06': 'Proved for every patch size and content, given an assumed contract of FISHPACK hstcrt (the library is absent here; the replay uses a stand-in solving the same stencil).',
    'C07': 'Proved for every root size, coefficients and map (reals), given a nonsingular boundary system (dgesv contract).',
    'C08': 'Proved for every length and content (reals for doubles); concatenation for at most 6 vectors. Trusted: clang AST, VC generator, z3, assumed contracts of std::vector.',
    'C09': 'Proved for every shape and content; block-diagonal matrices of at most 5 blocks. Trusted: clang AST, VC generator, z3.',
    'C10': 'Proved for every conforming shape and content in real arithmetic, given assumed contracts of dgemv, dgemm and dgesv that state their column-major semantics (nonsingular system).',
    'C11': 'Proved for every block size and content, for all permutations of at most 3 blocks and selected ones of 4 and 8 blocks (those the solver uses); other block counts by the replay program only.',
    'C13': 'Fine-to-coarse proved for every size; coarse-to-fine for selected even sizes up to 48 (bounded, every entry by the solver), the rest by the replay program only.',
    'C14': 'Proved for every rectangle, cell count, path and level (reals for doubles; the four child numbers are enumerated).',
    'C15': 'Proved for every tree content and quadrant (31 levels enumerated for the path), given assumed contracts of the p4est traversals and quadrant functions, MPI groups and MPI_Allreduce, and the field layout of p4est structures; only the broadcast policy (the other one is not implemented).',
    'C16': 'Proved for every leaf list, patch size and rectangle, given that the traversal hands over every leaf once (C15) and the assumed contract of std::vector.',
    'C20': 'Proved for every strictly increasing table of at least two points, every query and every saved position (reals for doubles), with loop invariants and ranking functions found from templates and proved.',
    'C21': 'Proved for every tree of elements, every text, every set of data arrays, process and file name, by induction over the passes of each loop (one pass proved) and over the tree (a child is written as the contract says); assumed: std::ofstream keeps what is written to it, std::string and std::vector, a double printed with 17 significant digits reads back equal, and p4est writes its own file.',
    'C24': 'Proved for every function, rectangle, cell count and quadrant position (30 levels enumerated), given the assumed contracts of p4est (creation, refinement, balance, coordinates); tree and mesh construction are C15 and C16.',
    'C18': 'Proved for every option map, name and value, every command line and every ini file, by a step proved for each form of argument or line and induction over the sequence; what std::stod and std::stoi make of a number, std::map and std::string are assumed contracts.',
    'C19': 'Proved for every cache content and name, for numbers and matrices, given the assumed contract of std::map.',
    'C17': 'Proved for every content and size below 2^31, rank and tag: receive and non-root broadcast consume exactly what the current send and root broadcast produce and rebuild an equal object. Assumed: MPI delivers messages in order (contracts of MPI_Send, MPI_Recv, MPI_Bcast); nodes of numbers stand for nodes of any sendable data.',
    'C12': 'Proved for every size and position: each call raises exactly when the contract says so and no index leaves its array. Trusted: clang AST, VC generator, z3, assumed contracts of std::vector and BLAS/LAPACK.',
}
for _k, _n in NOTES.items():
    if _k in PROPS: PROPS[_k]['note'] = _n

NOT_APPLICABLE = {
    'C22': 'a convergence rate is a statement about the limit of vanishing mesh width of a global discrete solution against an unknown smooth solution; no function contract over one call expresses or decides it',
    'C23': 'equality of whole parallel executions over all schedules and partitions and freedom from deadlock are whole-history properties of several communicating processes, which per-function contracts cannot state',
}
for _k in ['C%02d' % i for i in range(1, 22)]:
    if _k not in PROPS: NOT_APPLICABLE[_k] = 'no contract has been written for the functions this property depends on yet'
