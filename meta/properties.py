NA = {}
P = [
 dict(id="C01", title="A persistent vector acts as a sequence; old versions stay unchanged", over=["histories", "inputs"],
  statement="After any history of constructing a persistent vector, updating elements and pushing or popping at either end, its length, indexed reads, iteration and conversions show exactly the sequence that the same history gives on a plain sequence. Popping an empty vector and reading or fallibly updating out of range report absence, and an out-of-range update changes nothing. Every version obtained along the way keeps its contents whatever is later done to versions derived from it.",
  quant="every history of constructions, end operations and updates, every index and every element value",
  why="The tests build a few vectors (mostly one long run of back pushes) and look at a few indices; the tree, its two end buffers and the inline form give rise to shapes that only mixed histories reach.",
  files=["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs", "src/pvec/iter.rs", "src/pvec/traits.rs", "src/pvec/error.rs"],
  mech=[("end buffers and their move into the tree", "src/pvec/tree.rs push_back/push_front/pop_back/pop_front"), ("size tables steering indexed access", "src/pvec/node.rs"), ("inline to tree transition", "src/pvec/core.rs")],
  observe=["get", "iter", "to_vec", "len", "first", "last"], hook="node sizes scaled down under --cfg rustica_verif", note="Node sizes (inline/leaf/branch) are 4/3/2 in the scaled build and 4/2/4 in the wide one, so that short histories reach deep trees; lengths around the shipped sizes are checked in the plain build. "),
 dict(id="C02", title="Structural and bulk operations of persistent vectors match plain sequences", over=["histories", "inputs"],
  statement="Concatenating, splitting, taking, skipping, inserting and removing on persistent vectors give the same sequence as the same operation on plain sequences, whatever history of operations built the operands and however long it was: cutting and joining again and again does not deepen the tree behind a vector without end (which would overflow the stack). Mapping, filtering, flattening, removing adjacent duplicates (the first stays), sorting (equal elements keep their order), folding, zipping, partitioning and chunking act on the element sequence in order.",
  quant="every history of structural operations within the bounds, every index, every element value, every function and predicate on a four-value domain",
  why="The tests use bulk-built operands and a few indices; defects sit in operands of different height, with non-empty end buffers or of uneven depth (four such defects were found and repaired).",
  files=["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs", "src/pvec/traits.rs"],
  mech=[("tree concatenation and elevation", "src/pvec/tree.rs concat*"), ("splitting along a path", "src/pvec/tree.rs split*"), ("insert/remove by splitting", "src/pvec/core.rs")],
  observe=["to_vec", "len", "get"], hook="node sizes scaled down under --cfg rustica_verif"),
 dict(id="C03", title="Equality, order and hash of persistent vectors depend on the elements only", over=["histories", "inputs"],
  statement="Two persistent vectors are equal exactly when their element sequences are equal, compare in the lexicographic order of those sequences, and equal vectors feed the same data to a hasher, however each of them was built.",
  quant="every pair of element sequences within the bounds and every pair of ways to build them",
  why="Tests compare vectors built the same way; the representation (inline or tree, buffers, generation) differs with the history.",
  files=["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs"],
  mech=[("element-wise PartialEq/Ord/Hash", "src/pvec/core.rs")], observe=["==", "cmp", "hash"], hook="node sizes scaled down under --cfg rustica_verif"),
 dict(id="C04", title="Combining is associative, empty is its identity, all combining forms agree",
  statement="For every combinable type (lists, strings, options, tuples, maps, sets, the numeric and selection wrappers, identity, choice, validated, writer, persistent vector), combining is associative, and where an empty value is provided (except for the minimum wrapper, whose documented empty is the type's default) it is a two-sided identity. Combining by reference, by value, over several values and n times over give the same result, and maps combine the values of shared keys left before right.",
  quant="every triple of values within the bounds, every repetition count within the bounds",
  why="Tests use single examples, mostly commutative ones; order mistakes and n-ary shortcuts show only on particular combinations (an n-fold combining defect was found and repaired).",
  files=["src/traits/semigroup.rs", "src/traits/monoid.rs", "src/datatypes/wrapper/*.rs", "src/datatypes/choice.rs", "src/datatypes/validated/mod.rs", "src/datatypes/writer.rs", "src/datatypes/id.rs"],
  mech=[("Semigroup and Monoid instances", "src/traits/semigroup.rs, src/traits/monoid.rs"), ("n-ary combining", "SemigroupExt, MonoidExt")], observe=["results of combine and its variants"]),

 dict(id="C05", title="Wrappers accumulate or select what their name says and give back their value",
  statement="Sum and product wrappers accumulate the sum and product of their values, minimum and maximum keep the least and greatest, first and last keep the earliest and latest present value, whatever the order and number of combinations. Wrapping, reading, mapping, comparing, printing and unwrapping any wrapper concern exactly the wrapped value, also when it was absent.",
  quant="every value of the wrapped type, every fold of up to four values",
  why="Tests fold a few fixed numbers; ties, absent values and particular orders decide which operand survives.",
  files=["src/datatypes/wrapper/*.rs"], mech=[("Semigroup and Monoid of each wrapper", "src/datatypes/wrapper/*.rs"), ("accessors and mapping", "src/datatypes/wrapper/*.rs")], observe=["unwrap", "value", "combine", "Display"]),
 dict(id="C06", title="Predicates behave as the sets they describe",
  statement="A predicate built by union, intersection, difference or complement, by method or operator or by monoid combination, holds at a point exactly when the corresponding set formula over its parts does, however deep the formula. Combinations of two ask the second part only when the first does not decide. The empty predicate holds nowhere and building a formula neither asks nor changes its parts.",
  quant="every predicate on a four-value domain, every point", why="Tests evaluate a few numeric predicates at a few points.",
  files=["src/datatypes/wrapper/predicate.rs"], mech=[("boolean combinators", "src/datatypes/wrapper/predicate.rs")], observe=["contains"]),
 dict(id="C07", title="Mapping a container applies the function to each value and keeps the rest",
  statement="Mapping any container (list, option, result, maybe, either, identity, validated, choice, writer, persistent vector) applies the function once to each value in order and keeps the number and order of values, the errors and the log; mapping the identity changes nothing and mapping a composition equals mapping twice. The owned, replacing, discarding, fallible and filtering variants agree with mapping.",
  quant="every container within the bounds, every function on a four-value domain", why="Tests map one or two fixed values with one function; errors, logs, sizes past inline storage and variants are mostly untested.",
  files=["src/traits/functor.rs", "src/datatypes/*.rs", "src/pvec/traits.rs"], mech=[("Functor instances", "src/traits/functor.rs and each datatype"), ("FunctorExt", "src/traits/functor.rs")], observe=["fmap and its variants"]),
 dict(id="C08", title="Applicative combination pairs every value and keeps failures and logs in order",
  statement="Combining containers applicatively (apply, lift2, lift3 and their owned forms) applies the function once to every combination of their values, in the documented order, and keeps failures and logs: the first failure for option, result, maybe and either, all errors from left to right for validated, the logs from left to right for writer. Sequencing keeps the chosen side's values together with both sides' effects, and pure obeys the identity, homomorphism and interchange laws.",
  quant="every pair and triple of containers within the bounds, every function on a four-value domain", why="Tests use a success pair and one failure; which failure wins, the order of errors and logs and the agreement of all forms depend on every combination.",
  files=["src/traits/applicative.rs", "src/datatypes/*.rs"], mech=[("Applicative instances", "src/traits/applicative.rs and each datatype"), ("default methods", "src/traits/applicative.rs")], observe=["apply", "lift2", "lift3", "sequence_left", "sequence_right"]),
 dict(id="C09", title="Binding is associative with pure as its unit, and all monadic forms agree",
  statement="Binding a container (option, result, maybe, either, identity, validated, choice, writer) feeds each value to the function once and joins the results in order, stopping at a failure and keeping errors and logs from left to right. Pure is a left and right unit, binding is associative, and join, flat_map, the owned and the fallible forms agree with binding.",
  quant="every container within the bounds, every function from the four-value domain to containers", why="Tests bind single successes; the laws quantify over all functions, and dropped alternatives or logs need several values at once (one such defect was found and repaired).",
  files=["src/traits/monad.rs", "src/datatypes/*.rs"], mech=[("Monad instances", "src/traits/monad.rs and each datatype")], observe=["bind", "join", "bind_owned", "join_owned"]),
 dict(id="C10", title="Choosing between alternatives keeps the first success; handlers run on failure",
  statement="Choosing between two alternatives gives the first one that succeeded (for lists and choices, all values in order), associatively and with the empty alternative as identity as far as successes are concerned; guarding succeeds exactly when the condition holds. Catching an error runs the handler once on a failure, giving its result for that error, and leaves a success alone without running it; throwing is undone only by catching.",
  quant="every pair and triple of alternatives within the bounds, every handler on a four-value domain", why="Tests cover one success and one failure per type.",
  files=["src/traits/alternative.rs", "src/traits/monad_plus.rs", "src/traits/monad_error.rs", "src/datatypes/*.rs"], mech=[("Alternative, MonadPlus, MonadError instances", "src/traits/*.rs")], observe=["alt", "mplus", "catch", "guard"]),
 dict(id="C11", title="Folds visit each value once in order and derived queries agree with them",
  statement="Folding a list, choice, persistent vector, option, result, identity or validated value from the left visits exactly its values first to last, from the right last to first. Length, emptiness, search, all/any, membership, sums, products, extrema, sortedness, reduction, collection and mapped folding agree with that sequence of values.",
  quant="every container within the bounds, every value, every predicate on a four-value domain", why="Tests mostly fold with commutative functions over one list.",
  files=["src/traits/foldable.rs", "src/datatypes/*.rs", "src/pvec/traits.rs"], mech=[("Foldable instances and FoldableExt", "src/traits/foldable.rs")], observe=["fold_left", "fold_right and derived queries"]),
 dict(id="C12", title="Validated keeps all errors in order and its accessors and conversions agree",
  statement="Accumulating, sequencing and collecting validated values is valid exactly when every input is, with the values in order, and otherwise holds all errors from left to right. Recovering, mapping either side, iterating, reading, mutating and converting to and from options and results each act on exactly the value or the errors held, in order, however many there are; the panicking accessors panic exactly on the other case.",
  quant="every validated value of up to nine errors and every list of up to three of them", why="Tests use one or two errors; order, the step past inline storage, and which operand is invalid vary together (a collecting defect was found and repaired).",
  files=["src/datatypes/validated/*.rs"], mech=[("error buffer", "src/datatypes/validated/core.rs"), ("collect and sequence", "src/datatypes/validated/*.rs")], observe=["errors", "to_result", "unwrap", "iterators"]),
 dict(id="C13", title="A choice is a sequence: first value then alternatives; operations act on it",
  statement="A choice holds a first value and its alternatives in order, or nothing; construction, collection, adding, removing, swapping, filtering, deduplicating (the first of equal values stays), flattening, folding and conversion act on that sequence and keep its order. Removing or swapping an alternative that does not exist is reported by the fallible forms and panics in the others, and no operation changes the choice it was called on.",
  quant="every choice within the bounds, every index, every function and predicate on a four-value domain", why="Tests use two or three fixed alternatives and indices in range.",
  files=["src/datatypes/choice.rs"], mech=[("sequence representation and operations", "src/datatypes/choice.rs")], observe=["first", "alternatives", "iter", "to_vec"]),
 dict(id="C14", title="Single-value containers say the same through every accessor and conversion",
  statement="An option-like, either, identity, pure or wrapped value gives the same answer about whether it holds a value, and which, through every accessor, iterator, conversion and default; the panicking accessors panic exactly when the value is absent. Mapping, tapping or filtering one side leaves the other side alone, and lifting a value with pure or extending a comonadic value acts on exactly that value.",
  quant="every container holding at most one value, every value and error, every function and predicate on a four-value domain", why="Tests call each accessor on one present value; agreement between two dozen accessors on both cases is what a user relies on.",
  files=["src/datatypes/maybe.rs", "src/datatypes/either.rs", "src/datatypes/id.rs", "src/traits/identity.rs", "src/traits/pure.rs", "src/traits/comonad.rs", "src/traits/bifunctor.rs"], mech=[("accessors and conversions", "src/datatypes/maybe.rs, either.rs, id.rs"), ("Identity, Pure, Comonad, Bifunctor instances", "src/traits/*.rs")], observe=["unwrap and its variants", "iter", "to_option", "extract", "bimap"]),
 dict(id="C15", title="State programs thread the state through their steps in order",
  statement="A state computation assembled from reading, writing, modifying, pure values, mapping, binding and applying gives, from any initial state, the value and final state of the same program run directly, step after step. It can be run again from any state with the same meaning, evaluating and executing give the two halves of running, and pure and bind obey the monad laws. Assembling runs no step and each run runs each step once.",
  quant="every program within the bounds, every initial state, every transition on a four-value domain", why="Tests run short fixed programs over integers; an order or threading mistake shows on steps that do not commute.",
  files=["src/datatypes/state.rs"], mech=[("State over StateT with the identity base", "src/datatypes/state.rs")], observe=["run_state", "eval_state", "exec_state"]),
 dict(id="C16", title="The state transformer follows its base's sequencing and keeps its errors",
  statement="A state transformer over a base that may fail, fail with an error or give several results runs, maps, binds, lifts and joins by threading the state through the base's own sequencing, so that a failing step stops the program and every result of a branching step is continued. The Result forms report exactly the base's error with the given context, and converting from and to plain state keeps what runs.",
  quant="every program within the bounds over Option, Result and Vec, every initial state, every partial transition on a four-value domain", why="Tests use successful runs; which step fails, and how results branch, is the point of a transformer.",
  files=["src/transformers/state_t.rs"], mech=[("run, fmap_with, bind_with, combine_with", "src/transformers/state_t.rs"), ("Result forms", "src/transformers/state_t.rs try_*")], observe=["run_state", "try_run_state"]),
 dict(id="C17", title="Readers hand the same environment to every step",
  statement="A reader or reader transformer program gives what its steps give directly when each is handed the environment unchanged; a local modification is seen by exactly the computation it wraps, and each run runs each step once. Over a base that may fail, fail with an error or give several results, mapping, binding, lifting and combining follow the base's sequencing, and values owning memory come out intact and can be dropped once.",
  quant="every program within the bounds, every environment, every function on a four-value domain, copied and owned values", why="Tests use integers and strings in one shape; a value freed twice went unnoticed (that defect was found and repaired).",
  files=["src/datatypes/reader.rs", "src/transformers/reader_t.rs"], mech=[("bind and local", "src/datatypes/reader.rs"), ("bind_with, combine_with, Monad-like operations", "src/transformers/reader_t.rs")], observe=["run_reader", "try_run_reader"]),
 dict(id="C18", title="A writer's log is everything told, in program order",
  statement="A writer program's value is that of the program without logs, and its log is the concatenation, in program order, of everything told by its steps, through any mix of mapping, binding, applying, joining, combining and sequencing. Running, reading the parts and iterating agree.",
  quant="every program within the bounds, every log and value, every function on a four-value domain", why="Tests check one or two entries; order and completeness matter with several entries on several steps.",
  files=["src/datatypes/writer.rs"], mech=[("Functor, Applicative, Monad of Writer", "src/datatypes/writer.rs")], observe=["run", "log", "value"]),
 dict(id="C19", title="Continuation programs run as the same program in direct style",
  statement="A continuation computation built from pure values, aborting, calling the continuation several times, mapping, binding and applying gives, for every final continuation, what the same program in direct continuation-passing style gives. An escape captured by call_cc returns its value to the point of capture and skips the rest, and converting between the plain and transformer forms keeps the meaning.",
  quant="every program within the bounds, every continuation and function on a four-value domain", why="Tests mostly use computations that call their continuation once, where many wrong compositions are indistinguishable.",
  files=["src/datatypes/cont.rs", "src/transformers/cont_t.rs"], mech=[("bind and call_cc", "src/datatypes/cont.rs, src/transformers/cont_t.rs")], observe=["run"]),
 dict(id="C20", title="An IO runs its effects in order, once per run, and none when built",
  statement="Building, mapping, binding, applying or combining IO actions runs no effect; each run performs the program's effects in order, once each, and gives the value of the same program run directly. A panicking effect is reported as its message by the fallible forms and replaced by the recovery value, and sequencing several actions gives their results in order or reports the failures (the first one, or all of them in order).",
  quant="every program within the bounds run repeatedly, every value, mark and function on a four-value domain, every pattern of failing effects", why="Tests look at final values; effects run twice, too early or out of order are invisible to them.",
  files=["src/datatypes/io.rs"], mech=[("deferred effects", "src/datatypes/io.rs run/bind/fmap"), ("panic capture", "src/datatypes/io.rs try_get*")], observe=["run", "try_get", "order of effects"]),
 dict(id="C21", title="Lenses read and write exactly their focus and obey the lens laws",
  statement="A lens built from functions reads, sets and modifies exactly the focus those functions describe, leaves every other part alone, skips the write when told to or when nothing changes, and obeys the lens laws wherever its functions do. Mapped, iso-based and composed lenses act on the composed focus.",
  quant="every structure and focus value, every get/set pair and modifying function on a four-value domain", why="Tests use one record and one field; skipping and composition depend on whether the value changes.",
  files=["src/datatypes/lens.rs", "src/datatypes/iso_lens.rs"], mech=[("get/set/modify", "src/datatypes/lens.rs"), ("composition through isomorphisms", "src/datatypes/iso_lens.rs")], observe=["get", "set", "modify"]),
 dict(id="C22", title="Prisms match exactly their case and leave the others alone",
  statement="A prism built from functions previews, builds, sets and modifies exactly the case those functions describe and leaves every other case alone; it obeys the prism laws wherever its functions do. Composed prisms match exactly the composed case.",
  quant="every structure and focus value, every preview/review pair and modifying function on a four-value domain", why="Tests match one case and miss one; the rest of the domain decides.",
  files=["src/datatypes/prism.rs", "src/datatypes/iso_prism.rs"], mech=[("preview/review/modify", "src/datatypes/prism.rs"), ("composition", "src/datatypes/iso_prism.rs")], observe=["preview", "review", "modify"]),
 dict(id="C23", title="Isomorphisms convert there and back; inverses and compositions agree",
  statement="Composing and inverting isomorphisms, lifting functions through them and modifying under them give what their pairs of functions give directly, in both directions. The law check answers exactly whether both round trips hold at the given points, and the provided conversions between result, either and validated lose nothing on values with a single error.",
  quant="every pair of functions on a four-value domain, every point", why="Tests use one or two lawful pairs, where mixing up directions can go unnoticed.",
  files=["src/traits/iso.rs"], mech=[("Iso, ComposedIso, InverseIso", "src/traits/iso.rs")], observe=["forward", "backward", "modify", "verify"]),
 dict(id="C24", title="A memoizer computes a key once, also under threads; a thunk computes anew",
  statement="In any history of lookups and clears, a memoizer computes a key's value at its first lookup since the last clear and afterwards gives that value without computing again, whatever other keys do. Lookups of one key by several threads at once compute it once between them and all get that value. A thunk computes anew each time it is evaluated, and the evaluation helpers run what they are given once, in order.",
  quant="every history of lookups and clears within the bounds, every interleaving of two or three threads within the bounds, every computed value, every function on a four-value domain", over=["histories", "schedules", "inputs"], why="Tests look one key up twice; interleaved keys and clears are not covered, and a race between two lookups shows only on a rare schedule.",
  files=["src/datatypes/wrapper/memoizer.rs", "src/datatypes/wrapper/thunk.rs", "src/traits/evaluate.rs"], mech=[("cache lookup under a lock", "src/datatypes/wrapper/memoizer.rs get_or_compute")], observe=["get_or_compute", "evaluate", "number of computations"]),
 dict(id="C25", title="Composed functions run their parts in the stated order",
  statement="Function morphisms compose associatively with the identity as unit, arrows act on the chosen component of a pair only, with the first of two parts first, and sequenced, conditional and lifted functions apply their parts in the stated order, each once per call and only where it applies. The compose and pipe macros of any supported number of functions equal the written-out composition.",
  quant="every function and predicate on a four-value domain, every argument, every number of parts within the bounds", why="Tests compose arithmetic functions on one input, where several orders can coincide.",
  files=["src/category/function_category.rs", "src/traits/arrow.rs", "src/traits/category.rs"], mech=[("Category and Arrow of functions", "src/category/function_category.rs"), ("composition macros", "src/category/function_category.rs")], observe=["results of composed functions"]),
 dict(id="C26", title="Error contexts show newest first and stay with the error they describe",
  statement="Contexts added to an error, singly or together, by any of the helpers, are all reported newest first, survive mapping the error and setting its code, and its chain text names every context, the error and the code in that order. An error pipeline runs exactly the steps that apply, reports an error with the contexts added to that error and no others, and makes lazy contexts only when there is an error.",
  quant="every sequence of contexts and codes within the bounds, every pipeline of steps within the bounds, every value, error and function on a four-value domain", over=["histories", "inputs"], why="Tests add one or two contexts to one failure; a context that stayed after recovery showed up on a later error (found and repaired).",
  files=["src/error/types.rs", "src/error/context.rs", "src/error/macros.rs"], mech=[("context stack", "src/error/types.rs ComposableError"), ("pending contexts", "src/error/context.rs ErrorPipeline")], observe=["context", "error_chain", "finish"]),
 dict(id="C27", title="Error conversions lose nothing; traversals give all values or the first error",
  statement="Converting between result, either, validated and context-carrying errors keeps the value or the errors exactly, taking the first of several errors only where a single one fits. Sequencing and traversing fallible inputs give all values in order or the first failure, stopping there (every failure in order for validated), and recovery, two-sided mapping and error mapping act on exactly the side held.",
  quant="every collection within the bounds, every value and error, every (partial) function on a four-value domain", why="Tests use one success and one failure per function; order and completeness need several failures at once.",
  files=["src/error/convert.rs", "src/error/core.rs", "src/utils/error_utils.rs"], mech=[("conversions", "src/error/convert.rs"), ("traversals", "src/utils/error_utils.rs")], observe=["results of the conversions and traversals"]),
 dict(id="C28", title="Helper functions use every input in order and stop at the first failure",
  statement="The helper functions over options, results and lists map, filter, zip, fan out, sequence, chain, transform and fold exactly their inputs in order; a chain of fallible steps stops at its first failure. Composed, piped and flipped functions apply their parts in the stated order to the stated arguments.",
  quant="every collection and chain within the bounds, every (partial) function and predicate on a four-value domain", why="Tests use one collection each, often with commuting functions.",
  files=["src/utils/categorical_utils.rs", "src/utils/hkt_utils.rs", "src/utils/transform_utils.rs", "src/utils/functions.rs"], mech=[("helpers", "src/utils/*.rs")], observe=["results of the helpers"]),
 dict(id="C29", title="Asynchronous computations give their program's value under every readiness order",
  statement="An asynchronous computation does nothing until it is polled, and each run then performs its effects once, in program order where one step feeds the next and side by side where it does not, and gives the value of the same program run directly, whichever parts become ready first. A panic before the recovery point is replaced by the recovery value, a failed result by the default. Asynchronous functions over a validated value run on exactly the value or the errors it holds, once each, and keep their order.",
  quant="every program within the bounds, every number of polls its effects stay pending, every value and function on a four-value domain", over=["schedules", "inputs"], why="Tests await effects that are ready at once; order, repetition and progress show only when parts stay pending.",
  files=["src/datatypes/async_monad.rs", "src/datatypes/validated/core.rs"], mech=[("deferred futures", "src/datatypes/async_monad.rs fmap/bind"), ("side-by-side evaluation", "src/datatypes/async_monad.rs apply/zip_with"), ("panic capture", "src/datatypes/async_monad.rs recover_with")], observe=["try_get", "order of effects"]),
 dict(id="C30", title="Serialised values read back equal",
  statement="Writing any serialisable value (validated, choice, either, maybe, identity, writer, the numeric and selection wrappers) as JSON, directly or as a tree, and reading it back gives an equal value, alone or nested, whatever its case and however many values or errors it holds. Different cases are written differently.",
  quant="every value within the bounds", why="Tests write one value per type; absent values, empty or many errors and nesting are not covered.",
  files=["src/datatypes/*.rs", "src/datatypes/wrapper/*.rs"], mech=[("derived Serialize and Deserialize", "src/datatypes/*.rs under feature serde")], observe=["serde_json::to_string", "serde_json::from_str"]),

dict(id="C31", title="Versions of a persistent vector share structure instead of being copied", over=["histories", "inputs"],
  statement="Once a persistent vector has outgrown its inline form of 64 elements, cloning it and reading it (by index, at either end, by iterating over references) copies no element, and deriving a new version copies a bounded number of elements however long the vector and whatever its history: at most 512 for an update or a push or pop at either end, at most 2,048 for splitting, taking, skipping, inserting, removing or concatenating.",
  quant="every history within the bounds, every index; the bounds are 8 and 32 leaves of the leaf size in force",
  why="No test counts copies: code that rebuilds the whole vector returns the right elements and passes every test, and does so only on particular shapes (a full buffer, an uneven tree).",
  files=["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs"],
  mech=[("path copying", "src/pvec/node.rs"), ("shared chunks and nodes behind reference counts", "src/pvec/tree.rs")], observe=["number of times the elements' Clone runs"], hook="node sizes scaled down under --cfg rustica_verif"),
dict(id="C32", title="Printed forms show every value held, in order, and what went wrong",
  statement="Printing a choice shows its first value, then ' | ', then its alternatives separated by ', ', and nothing when it is empty. A persistent vector's debug form states its length and, while it is small enough to be kept inline, its elements in order. Index, range, IO, absent-value, context and application errors print the numbers, message and context they were built with, and an error with context prints the context before the error it wraps.",
  quant="every text and number within the bounds", why="Tests print one or two values; empty and long choices, the vector's two forms and errors with and without context are not covered.",
  files=["src/datatypes/choice.rs", "src/pvec/core.rs", "src/pvec/error.rs", "src/datatypes/io.rs", "src/datatypes/maybe.rs", "src/error/types.rs", "src/utils/error_utils.rs"],
  mech=[("Display and Debug implementations", "the files listed")], observe=["to_string", "format!"]),
]
