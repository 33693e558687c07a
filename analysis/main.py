"""Entry point: main.py <property> decides one property of the current tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import build
import content_check
import errors_check
import global_checks as G
import parse_checks as P
import safety as S
import tool
import valid_checks as V
from oracle import BUGS, why
from report import Report

METHOD = ('Abstract interpretation of the MIR the compiler produces for the current tree: path-sensitive, interprocedural, '
          'loops closed by invariants (induction over iterations, covering of states, or a control automaton). ')
COMMON = ['rustc translates the source to MIR faithfully; std is analysed from its own MIR except for the functions modelled in harness/src/model.rs and analysis/natives.py',
          'generic decoders are analysed for an opaque byte source; they cannot behave differently for another iterator that yields the same bytes']

RULES = METHOD + 'Module and context are symbolic (arbitrary index spaces, operand stack and open blocks); the typing rules of the specification are evaluated on the same abstract values. '
MODULE = METHOD + 'The whole-module entry point is analysed for a symbolic module of any size. '
STATE = ['an instruction sequence changes only the operands above the innermost block and its reachability flag (established by the instruction rules themselves)',
         'for single instructions: result lists have at most one element (longer ones are rejected, see C21)']

CHECKS = {
    'C01': (S.c01, METHOD + 'No path of any decoder (arbitrary bytes) or of the validator (arbitrary decoded module, arbitrary context for single instructions) may end in a panic; overflow checks count as panics.', COMMON + STATE),
    'C02': (S.c02, METHOD + 'Sizes of allocations and iteration counts of growing loops are traced to their origin: constants and lengths of existing data are covered, values of the input are not.', COMMON + STATE),
    'C03': (G.c03, 'Call graph of the monomorphised program: cycles through functions of the repository, and cycles in the containment of types (drop, print).', COMMON[:1]),
    'C23': (tool.c23, METHOD + 'main is analysed for every list of up to 3 arguments (each -p, --print or an arbitrary file name), with every outcome of opening, reading, decoding and validating; modification of files is excluded by a scan of the call graph.',
            COMMON[:1] + ['argument lists longer than 3 are treated like shorter ones', 'decoding and validation themselves are the subject of the other properties']),
    'C24': (G.c24, 'Effect analysis over the call graph (I/O, clock, environment, randomness, threads, addresses, hash order), lint for global state, interior mutability of modules; reading ahead by the path analysis of the decoders.', COMMON),
    'C04': (P.c04, METHOD + 'Every path of Instr::parse is compared with the opcode table and immediates of the binary format.', COMMON),
    'C05': (P.c05, METHOD + 'Every path through the block, loop, if and expression decoders is compared with the grammar; instruction loops are compared by one arbitrary iteration.', COMMON),
    'C06': (P.c06, METHOD + 'The region adapter is analysed under the most general consumer with ghost counters of bytes read and handed out; success must imply equality with the declared size.', COMMON),
    'C07': (P.c07, METHOD + 'The section loop is reduced to a finite control automaton; its product with the section grammar is explored exhaustively.', COMMON),
    'C08': (P.c08, METHOD + 'In the product of section loop and grammar, the loop-carried function values are compared element-wise (at an arbitrary index) with declared types and bodies.', COMMON),
    'C09': (P.c09, METHOD + 'The container decoders are analysed over an opaque element type; counts are related to iterations by linear invariants.', COMMON),
    'C10': (P.c10, METHOD + 'Bit-level value tracking through every group of the LEB128 decoders, for all widths; each path is compared bit by bit.', COMMON),
    'C11': (P.c11, METHOD + 'Bit-level tracking of the float decoders and a lint over the HIR for unsafe code elsewhere.', COMMON + ['little-endian target']),
    'C12': (P.c12, METHOD + 'Every path of the decoders of types, indices, descriptors and section entries is compared with the grammar.', COMMON),
    'C13': (lambda C, R: (P.c13(C, R), V.failing(C, R)), METHOD + 'On every path of every decoder and validator, an event "constituent failed" must be followed by an Err result.', COMMON),
    'C25': (errors_check.c25, METHOD + 'On every failing path of every decoder, the returned error is compared with the reason the path has for failing: the last read, its facts, and the error of a failed constituent.', COMMON),
    'C26': (content_check.c26, METHOD + 'Every path of every comparison of decoded values is compared with part-wise equality (comparisons of parts are events with a free outcome); conversions must yield the wrapped value; every path that prints a value must hand each of its parts to the formatter.', COMMON),
    'C14': (V.c14, RULES + 'Every path of every non-control instruction is compared with its signature.', COMMON + STATE),
    'C15': (V.c15, RULES + 'Every path of every control instruction is compared with its rule; nested expressions are atomic events whose context is compared.', COMMON + STATE),
    'C16': (V.c16, RULES + 'Stack effects of representative plain instructions and all control instructions, and the end of every function body, initialiser and offset.', COMMON + STATE),
    'C17': (V.c17, RULES + 'Every index type, every instruction with an index and every index in a module is compared with a lookup in its own space.', COMMON + STATE),
    'C18': (V.c18, MODULE + 'The index spaces present whenever an expression is checked are compared, element by element at an arbitrary position, with imports followed by definitions.', COMMON + STATE),
    'C19': (V.c19, MODULE + 'The complete context (locals, return type, both stacks) present whenever an expression is checked is compared with a fresh one for that function, initialiser or segment.', COMMON + STATE),
    'C20': (V.c20, MODULE + 'The constant-expression check is compared instruction by instruction with the rule, and its use for initialisers and offsets with the module rules.', COMMON + STATE),
    'C21': (V.c21, MODULE + 'Accepting paths must have established every rule for every element; rejecting paths must have found an element that breaks one.', COMMON + STATE),
    'C22': (V.c22, MODULE + 'The returned lists are compared element by element, at an arbitrary position, with imports and exports.', COMMON + STATE),
}


def main(prop):
    fn, expl, assume = CHECKS[prop]
    R = Report(prop, expl, assume)
    C = P.Ctx() if prop != 'C23' else None
    if C and C.W.lost:
        R.undecided('entry points', 'do not compile: ' + ', '.join(C.W.lost))
    try:
        fn(C, R)
    except BUGS as e:
        R.undecided('analysis', why(e))
    return R.finish()


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except build.BuildError as e:
        print(str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
