#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, in readable form)."""
import json, os
I="include/boost/variant/"
V=I+"variant.hpp"; D=I+"detail/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":observe or [],"hook_needed":hook}})
STATE=[{"name":"discriminator","meaning":"index of the bounded type held; negative values mean the content lives in a heap backup","where":V+" (which_)"},
       {"name":"storage","meaning":"aligned raw bytes holding the content or the pointer to its heap backup","where":V+" (storage_)"}]

p("C01","A variant is never empty, whatever failed before",
  "At every point between operations a variant contains exactly one fully constructed value of exactly one of its bounded types; which() is the zero-based position of that type, empty() is false, and visitation and get reach that very value. This holds after every history of constructions, assignments, moves, swaps and conversions, including operations that ended with an exception thrown by a content operation or by memory exhaustion. Every operation remains usable on a variant that went through such a failure.",
  ["histories","fault_sequences","inputs"],
  "all operation histories over variants in any state reachable by construction, move-from, or a failed assignment; every point at which a bounded type's operation or an allocation can throw; all values",
  "variant_nonempty_check.cpp throws from one type in a handful of single-operation scenarios; it never uses a variant in the post-failure state as the source of a different-type assignment, and never fails allocations",
  [V,D+"backup_holder.hpp",D+"visitation_impl.hpp"],
  [("backup_assigner / assigner / move_assigner","variant.hpp"),("which/indicate_which/indicate_backup_which","variant.hpp"),("visitation_impl_invoke_impl (inline vs backup)","detail/visitation_impl.hpp")],STATE,
  ["variant::which, empty, apply_visitor, get after every operation"])
p("C02","Content is constructed and destroyed exactly once, nothing leaks",
  "Over the life of any set of variants every content object that is constructed is destroyed exactly once, no operation touches an object before its construction or after its destruction, and no object is constructed over a live one. All heap memory obtained by variants and recursive wrappers is released exactly once, on success and on failure paths alike. Destroying a variant destroys its current content and nothing else.",
  ["histories","fault_sequences","inputs"],
  "all operation histories, all throw points (content operations and allocations), all content states",
  "the existing tests do not count object lifetimes on failure paths and are not run under a leak checker; lifetime errors on rarely taken throw paths stay invisible",
  [V,D+"backup_holder.hpp",D+"initializer.hpp",I+"recursive_wrapper.hpp"],
  [("destroyer","variant.hpp"),("backup_assigner (heap backup ownership)","variant.hpp"),("backup_holder","detail/backup_holder.hpp"),("recursive_wrapper ownership","recursive_wrapper.hpp")],STATE,
  ["constructor/destructor calls of the bounded types; allocation and deallocation"])
p("C03","Construction captures exactly the given value",
  "A default-constructed variant holds a default-constructed object of its first bounded type (zero for an arithmetic type); a variant copy- or move-constructed from another holds the same bounded type with the same value; a variant constructed from a value of one of its bounded types holds that type with that value. Copying leaves the source unchanged; moving moves the content rather than copying it and leaves the source a valid variant holding the same type. If construction fails, the content's own exception propagates, the source of a copy is unchanged and no object survives.",
  ["inputs","fault_sequences","histories"],
  "every bounded type position, every source state (in place, after failed assignment, moved-from), lvalue/const/rvalue sources, all throw points, all values",
  "tests construct from a few concrete types and values and never from a variant whose content was displaced by a failed assignment",
  [V,D+"initializer.hpp"],
  [("copy_into / move_into","variant.hpp"),("initializer_node::initialize","detail/initializer.hpp"),("convert_construct","variant.hpp")],STATE,["constructors of variant"])
p("C04","Successful assignment makes the target hold the source's value",
  "After an assignment that completes, the target holds the source's bounded type and value, whatever type and state the target and the source had before, including self-assignment and targets or sources that survived an earlier failed assignment (the source not being a proper part of the target's own content). Copy assignment leaves the source unchanged; move assignment leaves the source a valid variant of the same type; assigning a value of a bounded type T leaves the target holding T. Previous content is destroyed, and moving content whose move cannot throw performs no copy.",
  ["inputs","histories"],
  "all pairs (target type and state, source type and state), copy/move/value assignment, all values",
  "tests assign a few type pairs in the ordinary in-place state only; the cross product with post-failure states is not exercised",
  [V,D+"backup_holder.hpp"],
  [("variant_assign","variant.hpp"),("assign_storage / move_storage","variant.hpp"),("assigner / move_assigner","variant.hpp"),("direct_assigner / direct_mover","variant.hpp")],STATE,["operator="])
p("C05","A failed assignment keeps the old value or falls back",
  "When an assignment of a different bounded type throws, the exception raised by the content (or by memory exhaustion) reaches the caller unchanged, a copied-from source is unchanged, and the target keeps its previous type and value; only if some bounded type is nothrow default-constructible may it instead hold a default-constructed nothrow default-constructible type, and then boost::blank is used if it is a bounded type. When types are equal, the target keeps its type.",
  ["fault_sequences","inputs","histories"],
  "every throw point of every content operation and allocation inside an assignment, for all combinations of throwing/nothrow copy and move, with and without a fallback type",
  "only one throwing type and a few throw positions are tested, and the preserved value is not compared",
  [V],
  [("backup_assigner","variant.hpp"),("construct_fallback / find_fallback_type","variant.hpp"),("assigner::assign_impl","variant.hpp")],STATE,["operator= exiting by exception"])
p("C06","swap exchanges the two contents",
  "After v.swap(w) or swap(v,w) completes, each variant holds the bounded type and value the other held before, for every combination of types and states, including swapping a variant with itself. If swapping throws, the exception propagates and both variants still hold one valid value of a bounded type; when both held the same type both still hold that type.",
  ["inputs","fault_sequences","histories"],
  "all pairs of types and states, all throw points, all values",
  "variant_swap_test covers a few concrete pairs with non-throwing contents",
  [V,D+"move.hpp"],[("variant::swap, swap_with","variant.hpp"),("move_swap","detail/move.hpp")],STATE,["variant::swap, boost::swap"])
p("C07","Visitation calls the visitor once with the current content",
  "Applying a unary visitor to a variant invokes it exactly once, with the variant's current content itself (same object, wrappers removed, constness of the variant, rvalue for an rvalue variant and lvalue otherwise), and returns its result or propagates its exception unchanged. The variant's type and value are changed only by what the visitor does. This holds for every number of bounded types and every position, however the content is stored.",
  ["inputs","configurations","histories"],
  "all type positions including beyond the unrolling limit, all storage states, const/non-const/rvalue variants, static/delayed/result-deducing visitors, throwing visitors",
  "tests visit a few positions of small variants in the in-place state",
  [V,D+"visitation_impl.hpp",D+"apply_visitor_unary.hpp",D+"apply_visitor_delayed.hpp",D+"cast_storage.hpp"],
  [("visitation_impl switch and unrolling","detail/visitation_impl.hpp"),("invoke_visitor","variant.hpp"),("apply_visitor overloads","detail/apply_visitor_unary.hpp")],STATE,["apply_visitor"])
p("C08","Multi-visitation passes every content once, in order",
  "Applying a visitor to two or more variants invokes it exactly once with the current contents of all of them in argument order, each being the content object itself for lvalue variants, with constness kept, and an rvalue for rvalue variants; the result is returned and exceptions propagate. Delayed application behaves like direct application.",
  ["inputs","configurations","histories"],
  "all combinations of type positions and storage states of the operands, all lvalue/const/rvalue combinations, 2 and more operands, visitors with and without result_type",
  "variant_multivisit_test samples a few combinations of operand types",
  [D+"apply_visitor_binary.hpp",D+"multivisitors_cpp11_based.hpp",D+"multivisitors_cpp14_based.hpp",D+"apply_visitor_delayed.hpp"],
  [("apply_visitor_binary_unwrap/invoke","detail/apply_visitor_binary.hpp"),("one_by_one_visitor_and_value_referer","detail/multivisitors_cpp11_based.hpp")],STATE,["apply_visitor with several variants"])
p("C09","get succeeds exactly when the asked type is held",
  "get<U> (strict or relaxed, pointer, reference or rvalue form) yields the content object itself exactly when the variant's current content is of type U, however it is stored. Otherwise the pointer form yields null and the reference forms throw bad_get; a null pointer argument yields null. Neither form changes the variant.",
  ["inputs","histories"],
  "all asked types against all held types and storage states, const and non-const, null pointers",
  "variant_get_test samples types in the ordinary state",
  [I+"get.hpp",D+"element_index.hpp"],[("get_visitor","get.hpp"),("relaxed_get/strict_get/get","get.hpp"),("holds_element","detail/element_index.hpp")],STATE,["boost::get, strict_get, relaxed_get"])
p("C10","polymorphic_get finds the content by type or base class",
  "polymorphic_get<U> (strict or relaxed, pointer or reference form) yields the U part of the current content exactly when the content is of type U or of a class derived from U (respecting constness); otherwise the pointer form yields null and the reference form throws bad_polymorphic_get, which is a bad_get. A null pointer argument yields null and nothing is modified.",
  ["inputs","histories"],
  "all asked types (exact, base, second base, unrelated) against all held types and storage states",
  "variant_polymorphic_get_test samples a few class hierarchies and states",
  [I+"polymorphic_get.hpp"],[("get_polymorphic_visitor","polymorphic_get.hpp"),("polymorphic_relaxed_get/strict_get","polymorphic_get.hpp")],STATE,["boost::polymorphic_get and friends"])
p("C11","Comparison orders by type position, then by content",
  "Two variants are equal iff they hold the same bounded type and their contents compare equal; v<w iff v's type comes before w's, or the types agree and v's content is less than w's; !=, >, <=, >= are the corresponding negations and mirror images. Hence == is an equivalence and < a strict weak ordering whenever the bounded types' own operators are. Comparison depends only on held types and contents, never on how they are stored, changes nothing, and compares contents only when the types agree.",
  ["inputs","histories"],
  "all pairs and triples of types, values and storage states, arbitrary content comparison functions",
  "variant_comparison_test samples ints and strings in the in-place state",
  [V],[("operator==, operator<, comparer","variant.hpp"),("equal_comp/less_comp","variant.hpp"),("known_get","variant.hpp")],STATE,["comparison operators"])
p("C12","Equal variants hash equally, and hashing sees the content",
  "hash_value, boost::hash and std::hash of a variant agree with one another and are a function of the held type's position and the content's own hash only, so variants that compare equal hash equal however their contents are stored. The hash depends on both the content hash and the type position; hashing changes nothing.",
  ["inputs","histories"],
  "all pairs of values and storage states, arbitrary content hash functions",
  "hash_variant_test compares a few concrete values, all stored in place",
  [D+"hash_variant.hpp",D+"std_hash.hpp"],[("variant_hasher, hash_value","detail/hash_variant.hpp"),("std::hash specialisation","detail/std_hash.hpp")],STATE,["hash_value, std::hash, boost::hash"])
p("C13","recursive_wrapper is an always-full, deep-copying value",
  "A recursive_wrapper always owns exactly one object: construction copies or moves the given value into it, copies are deep, assignment changes only the target's value, swap exchanges the values, and a moved-from wrapper still holds an object. Failed construction or assignment leaks nothing and leaves the operands owning one object each.",
  ["inputs","fault_sequences","histories"],
  "all operations, all throw points including allocation failure, self-assignment and self-swap, all values",
  "recursive_wrapper_move_test only counts copies in a few scenarios",
  [I+"recursive_wrapper.hpp",I+"recursive_wrapper_fwd.hpp"],[("recursive_wrapper members","recursive_wrapper.hpp")],
  [{"name":"owned pointer","meaning":"sole owner of the wrapped object, never null","where":I+"recursive_wrapper.hpp (p_)"}],["recursive_wrapper members"])
p("C14","Content sits in suitably sized, aligned in-object storage",
  "Content held in place lies entirely inside the variant object at an address aligned for its type, for every set of bounded types, and never overlaps the discriminator. If some bounded type is nothrow default-constructible, or the types involved are nothrow copy-constructible, no variant operation ever allocates memory of its own and content is always in place; construction and successful type-changing assignment always leave the content in place.",
  ["configurations","inputs","fault_sequences","histories"],
  "all bounded types of the verified configurations incl. over-aligned and odd-sized ones and the size-minimising build, all operations and throw points",
  "tests never look at addresses or allocations",
  [V],[("make_storage, max_value, add_alignment","variant.hpp"),("never_uses_backup","detail/visitation_impl.hpp")],STATE,["address of the content; calls of operator new"])
p("C15","Conversion picks the best bounded type; foreign variants convert",
  "Constructing or assigning from a convertible value produces the bounded type that overload resolution over the bounded types selects, holding the converted value. Constructing or assigning from a variant of different type converts its current content the same way, unless that variant type is itself a bounded type, in which case it is stored whole; rvalue sources are moved from, lvalue sources are unchanged.",
  ["inputs","histories","fault_sequences"],
  "all source types and positions of the verified configurations, all source storage states, all values, all throw points",
  "tests sample few conversions, and never foreign variants in the post-failure state",
  [V,D+"initializer.hpp"],[("initializer overload chain","detail/initializer.hpp"),("convert_copy_into / convert_move_into","variant.hpp"),("convert_construct_variant","variant.hpp")],STATE,["converting constructors and assignments"])
p("C16","No exception is swallowed, invented or turned into terminate",
  "An exception thrown by a content operation or by allocation inside a variant operation always reaches the caller as thrown, and a variant operation throws nothing else apart from the documented bad_get and bad_visit. An operation declared noexcept never meets a throwing content operation: move construction and move assignment are noexcept exactly when all bounded types' corresponding moves are, and queries and destruction never throw.",
  ["fault_sequences","configurations","inputs"],
  "every throw point of every operation in every configuration of throwing and nothrow types",
  "variant_noexcept_test checks a few traits; whether a noexcept function can actually meet an exception is not tested",
  [V,I+"recursive_wrapper.hpp",I+"recursive_wrapper_fwd.hpp"],[("noexcept specifications","variant.hpp"),("is_variant_move_noexcept_constructible/assignable","variant.hpp"),("BOOST_CATCH/BOOST_RETHROW blocks","variant.hpp")],STATE,["exceptions leaving variant operations"])
p("C17","Reference content aliases the referred object",
  "A variant with a reference bounded type refers to the very object it was constructed from: visitation and get yield that object, writes through the variant reach it, and copies of the variant refer to the same object. Copying, moving or destroying such a variant never copies, moves or destroys the referred object.",
  ["inputs","histories"],
  "all positions, const and non-const referents, copy/move construction, comparison and visitation, all values",
  "variant_reference_test samples few types",
  [V,D+"initializer.hpp"],[("make_reference_content internal types","variant.hpp"),("invoke_visitor/convert_copy_into overloads for reference content","variant.hpp")],STATE,["get/visit on variants of references"])
p("C18","type() and stream output report the current content",
  "type() returns the type identity of the currently held bounded type, and streaming a variant out writes exactly what streaming its current content would write, once, to the given stream, returning that stream. Both depend only on the content, however it is stored, and change nothing.",
  ["inputs","histories"],
  "all type positions and storage states, all values",
  "tests stream a few values and compare type() for ordinary states only",
  [V,D+"variant_io.hpp"],[("reflect, variant::type","variant.hpp"),("printer, operator<<","detail/variant_io.hpp")],STATE,["type(), operator<<"])
p("C19","visitor_ptr calls the function for its type, else throws bad_visit",
  "Applying visitor_ptr(f), with f taking T, to a variant calls f exactly once with the current content and returns its result when the content is of type T, and otherwise calls nothing and throws bad_visit. With a reference parameter the function receives the content object itself.",
  ["inputs","histories"],
  "all held types and states against all function parameter types (by value, const reference, reference)",
  "tests call visitor_ptr with a few function types",
  [I+"visitor_ptr.hpp",I+"bad_visit.hpp"],[("visitor_ptr_t::operator()","visitor_ptr.hpp")],STATE,["apply_visitor with visitor_ptr"])
p("C20","Recursive and sequence-built variants behave like plain ones",
  "A variant made by make_recursive_variant, make_recursive_variant_over or make_variant_over has exactly the specified bounded types, in order, with every occurrence of the recursive placeholder replaced by the variant itself; construction, copying, assignment (also failing), visitation, comparison and get obey the same rules as for a plainly declared variant of those types. Recursive elements are held by deep-copied ownership and are invisible as wrappers to visitors and get.",
  ["inputs","configurations","fault_sequences","histories"],
  "all positions, states, values and throw points of recursive and sequence-based configurations",
  "recursive_variant_test samples trees of ints and strings without failures",
  [I+"recursive_variant.hpp",D+"enable_recursive.hpp",D+"substitute.hpp",D+"over_sequence.hpp",V],
  [("substitute/enable_recursive","detail/substitute.hpp, detail/enable_recursive.hpp"),("make_recursive_variant(_over), make_variant_over","recursive_variant.hpp, variant.hpp"),("unwrap_recursive","recursive_wrapper_fwd.hpp")],STATE,["operations of recursive and sequence variants"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
