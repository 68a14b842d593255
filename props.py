"""What decides each property, and what each verdict rests on."""
VCG = [
    "the vcg engine itself: path exploration, VC emission, rational-function normalisation and its axioms (exp, ln, pow, sin/cos, sqrt; vcg/src/poly.rs, smt.rs)",
    "z3 (and cvc5 when z3 gives up)",
    "rustc's monomorphisation: the generic functions of /repo are compiled at a symbolic scalar instead of f64",
]
REALS = "machine floats treated as mathematical reals in the value contracts (rounding is outside; C17 covers binary64)"
STUB = "operands are arbitrary implementations of the node traits that meet their own contract (contract stubs); purely functional operands"
SYM = "contract-based deductive verification: pre/postconditions on the monomorphised functions of /repo, VCs by symbolic execution, discharged by z3"
SYM2 = SYM + "; and Verus on the function bodies extracted from /repo on every run, with contracts and loop invariants, at every size"
VERUS = [
    "the extraction (extract/, verus.py): bodies are rustc's macro expansion of /repo read by syn; std calls are renamed to stand-ins verified in verus/prelude.rs, `for` becomes a loop over the same items, `unsafe` is stripped (the stand-in's precondition takes its place), generics are renamed to the skeleton's",
    "Verus and its z3; vstd's axioms on slices, arrays, Vec and closures",
    "std's <[T; N]>::map and array-init's array_init meet their documentation; std's derived PartialEq compares fields; reading an [F; M] at the place of an [F; N] with N = M gives its entries",
    "a function whose new text Verus's front end does not accept, or whose loops changed, is set aside (named in the evidence) and left to the symbolic execution at listed sizes",
]
NOTE = "Each function of /repo is compiled at a symbolic scalar and executed; a caller is checked against contract stubs of its operands, so the argument is compositional over whole expressions; every postcondition becomes an SMT obligation. "
NA = {}
PROPS = {
    "C01": dict(parts=["vcg"], technique=SYM, note=NOTE + "All operand values and operand derivatives are arbitrary reals in the differentiable domain.",
                trusted=VCG + [REALS, STUB, "special functions obey digamma = (ln gamma)', gamma' = gamma digamma (crate special-fun is trusted)"]),
    "C03": dict(parts=["vcg"], technique=SYM, note=NOTE + "Operators are run on scalars, pairs, vectors, arrays of rank 1-5 and on the size- and rank-independent contract buffer Gen, on which the entrywise postcondition is proved for every shape at once. Bounded addition: at machine double precision each operator is compared with the standard library (or special-fun) at 48 magnitudes and signs, where a rewrite over the reals may overflow.",
                trusted=VCG + [REALS, STUB, "crate special-fun's gamma, log-gamma, digamma, beta, erf are uninterpreted: the operators are shown to call the documented one on the operand's entry"]),
    "C04": dict(parts=["vcg", "verus:run"], technique=SYM2, note=NOTE + "Every combination of dense, homogeneous and diagonal operands is a separate case, with symbolic entries. The lifted contractions are proved by Verus at every extent.",
                trusted=VCG + VERUS + [REALS, STUB, "F::from_usize(n) is n"]),
    "C05": dict(parts=["vcg"], technique=SYM, note=NOTE + "Run-time lengths range over small equal and differing values; compile-time shapes over rank 0-5.",
                trusted=VCG + [REALS, STUB]),
    "C06": dict(parts=["vcg"], technique=SYM, note=NOTE + "Operand failures are arbitrary error values.",
                trusted=VCG + [REALS, STUB, "scalars are floating-point; integer buffers are outside the property (F::from_usize may not be representable)"]),
    "C07": dict(parts=["vcg", "verus:run"], technique=SYM2, note=NOTE + "Buffers have symbolic entries; the mapped function is an arbitrary affine one; folds are observed as the sequence of visited entries. The trait's provided methods are proved on the contract buffer; the implementations of Vec and of arrays of rank 1-5 are proved by Verus at every length and extent (bodies extracted from /repo), and by symbolic execution at listed extents with replays.",
                trusted=VCG + VERUS + [REALS, "array-init's documented contract"]),
    "C08": dict(parts=["vcg", "verus:run"], technique=SYM2, note=NOTE + "The zipped function is an arbitrary bilinear one with fresh coefficients, the folded step an order-sensitive one. Verus proves the Vec and array (rank 1-5) implementations at every length and extent on the extracted bodies.",
                trusted=VCG + VERUS + [REALS, "array-init's documented contract"]),
    "C09": dict(parts=["vcg", "verus:run"], technique=SYM2, note=NOTE + "Entries are symbolic and the defining sum is compared as a polynomial identity for each size; Verus proves dense, homogeneous and diagonal operands at every size on the extracted bodies (over the integers, hence in every commutative ring).",
                trusted=VCG + VERUS + [REALS, "array-init's documented contract", "F::from_usize(n) is n"]),
    "C10": dict(parts=["vcg", "verus:run"], technique=SYM2, note=NOTE + "Shapes have no symbolic content at this level: the contract is checked exhaustively at the listed extents, and by Verus on the extracted bodies at every extent.",
                trusted=VCG + VERUS + ["itertools' iproduct! and concat-arrays meet their documentation (their results are what is checked)", "slice::split_last_mut, Range::<usize>::clone and mem::take as documented; MultiProduct::count is checked at the listed extents only"]),
    "C11": dict(parts=["vcg"], technique=SYM, note=NOTE + "Each operator is checked over operands that contain any subset of three identifiers; queries and operand answers are finite, so every case is enumerated.",
                trusted=VCG + ["operands answer `contains` as a set of identifiers"]),
    "C12": dict(parts=["vcg"], technique=SYM, note=NOTE + "Each context operation is checked from an arbitrary state (symbolic contents, every combination of filled and empty cache slots), which covers every history; the macros are checked at several declarations.",
                trusted=VCG + [STUB, "the macros expand other declarations of the same form alike"]),
    "C16": dict(parts=["vcg"], technique=SYM, note=NOTE + "Every ordered pair of built-in identifiers and of the declared groups is enumerated.",
                trusted=VCG + ["the ids! macro expands other declarations of the same form alike"]),
    "C13": dict(parts=["vcg"], technique=SYM, note=NOTE + "Every overload is proved for arbitrary values and coefficients, the constructors for every buffer kind and for the contract buffer Gen; evaluate_dual against an operand whose derivative depends on the target.",
                trusted=VCG + ["coefficients and values are scalars with exact (real) arithmetic"]),
    "C17": dict(parts=["vcg"], technique=SYM, note=NOTE + "Here obligations are in the theory of binary64 floats: every input but NaN, infinities and both zeros included.",
                trusted=VCG + ["exp and ln: range, sign and special-value facts of libm", "rounded product and quotient: facts implied by correct rounding (monotonicity, exactness on 0, 1, -1, 2)"]),
    "C02": dict(parts=["vcg", "verus:run"], technique=SYM2, note=NOTE + "Sources are proved for a buffer known only through the contract of the buffer traits, of any rank and size; the concrete buffer kinds with stated extents. The contractions a product's derivative is made of are proved by Verus at every extent.",
                trusted=VCG + VERUS + ["F::from_usize(n) is n", "entries are scalars with exact (real) arithmetic"]),
    "C14": dict(parts=["vcg"], technique=SYM, note=NOTE + "The contract of to_expr is a value together with a text whose reading (by the grammar in the harness) denotes it; each operator is proved over operands known only by that contract, at one text of every level of the grammar.",
                trusted=VCG + ["the grammar used to read the printed forms", "operands' texts enter only by substitution: one text per level of the grammar stands for all of that level", "real arithmetic; special functions by their names, identities and values at 0 and 1"]),
    "C15": dict(parts=["verus:run", "formula:run"],
                technique="contract-based deductive verification: Verus on the macro's syntax fold, extracted from /repo on every run, with a contract on every formula; and the same contract evaluated on the macro's source and on formulas compiled by rustc, for replays",
                note="The contract of fold_expr - the result denotes the formula's operator tree, and binds as tightly as it must where it is placed - is proved by Verus by induction over formulas of every size. Formulas up to a bounded size are also expanded by the extracted macro and by rustc and their trees compared (this gives the failing formula). ",
                trusted=["the extraction (extract/, verus.py): rustc's macro expansion is not needed here, the macro's source is read by syn; parse_quote! templates become calls whose contracts state what syn parses the substituted template to",
                         "Verus and its z3",
                         "syn's parser: has Rust's precedence and associativity, hence the operand shapes in `formula` (verus/fold.rs); syn's default folds rebuild a node from its folded children; quotations parse as Rust (these are cross-checked by the bounded part: formulas are printed by the checker from trees)",
                         "rustc expands and types the macro's output"]),
}
