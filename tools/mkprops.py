#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per line). Edit the table here, then run it.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

SEQ="varlen/src/seq.rs"; LIB="varlen/src/lib.rs"; ARR="varlen/src/array.rs"; INI="varlen/src/array_init.rs"
OWN="varlen/src/owned.rs"; VB="varlen/src/vbox.rs"; TUP="varlen/src/tuple.rs"; NT="varlen/src/newtype.rs"
STR="varlen/src/str.rs"; MS="varlen/src/macro_support.rs"; MK="varlen/src/marker.rs"; MAC="varlen_macro/src/lib.rs"

p("C01","A sequence always holds exactly the elements put into it, in order",
  "After any history of pushing, extending, collecting, growing, mutating in place and taking all elements out, a sequence reports the length and yields (by shared, mutable and owning iteration) exactly the elements of a plain list that underwent the same history, in the same order and with the same contents. This holds for both indexing modes and every element type, including elements of mixed sizes, over-aligned elements and zero-sized elements.",
  ["histories","inputs"],
  "All operation histories over all element types, element sizes and both indexing modes.",
  "Each doc-test pushes two or three short strings once; none mixes sizes so that several growths, re-use after taking, and padding interact.",
  [SEQ],[("push / growth",SEQ+": Seq::push, try_push, try_realloc"),("iteration",SEQ+": Iter, IterMut, OwnedElems"),("take_elems",SEQ+": Seq::take_elems")],
  [("len_elements, occupied_offsets, capacity_offsets, storage","the sequence's whole state",SEQ+": struct Seq")],
  ["Seq::len","Seq::iter","Seq::iter_mut","Seq::take_elems","Extend/FromIterator/seq!"])

p("C02","Checked indexing accepts exactly the starts of current elements",
  "In a sequence with checked indexing whose elements occupy memory, at every moment of every history, an offset is reported valid, and shared or mutable lookup by it succeeds, exactly when it is the start of an element currently in the sequence; the lookup then gives that element. Every other offset (inside an element, past the end, left over from elements since taken out or from a push that failed) is reported invalid and lookup by it panics.",
  ["histories","inputs"],
  "All histories of pushes, growth, taking elements, failed pushes and lookups, for every offset value.",
  "Tests look up two offsets in a freshly filled sequence; they never re-use a sequence after taking its elements, nor grow one whose bitmap does not end on a byte boundary.",
  [SEQ],[("start bitmap maintenance",SEQ+": CheckedIndexing (alloc_storage, grow_storage, mark_offset_valid, clear_bitmasks)"),("lookup",SEQ+": from_offset, from_offset_mut, is_offset_valid")],
  [("bitmap behind the element storage","bit i set iff an element starts at offset i",SEQ+": CheckedIndexing")],
  ["Seq::is_offset_valid","Seq::from_offset","Seq::from_offset_mut"])

p("C03","Offsets name elements stably and elements are packed tightly",
  "For elements that occupy memory, the offset a sequence announces before a push is the offset of the element pushed next, it is the sum of the earlier elements' sizes each rounded up to whole alignment units, and it keeps naming that element through any later pushes and growth. Looking up the offset of an element reference gives that same number, every element is placed at its offset at the alignment its type requires, and a reference to an object outside the sequence is refused with a panic.",
  ["histories","inputs"],
  "All push histories, element sizes and alignments, in both indexing modes.",
  "Doc-tests pin a few literal offsets for u16/u32-length strings; they cannot cover all size/alignment/growth combinations.",
  [SEQ],[("offset arithmetic",SEQ+": offset, offset_of, from_offset_unchecked(_mut), try_push, round_up_fast")],
  None,["Seq::offset","Seq::offset_of","Seq::from_offset_unchecked","Seq::from_offset_unchecked_mut"])

p("C04","Every stored value is destroyed exactly once",
  "Whatever path an object takes (built in place, boxed, placed in an arena, pushed into a sequence, used as the initializer of another object, converted to a raw pointer and back, taken out of a sequence one by one or only in part, or abandoned with an unused initializer), each value with a destructor stored in it, in its fixed part or its variable tail, is destroyed exactly once when its owner goes away. A value whose owner was explicitly leaked or forgotten is never destroyed and stays intact, and no value is ever destroyed while still reachable.",
  ["histories","programs"],
  "All histories of moves between owners, and all compositions of field types, including zero-sized values with destructors.",
  "Tests drop one box of one tuple type and one take_elems loop over a counter; leak, move-as-initializer, partial consumption and the tail fields of most types are never observed.",
  [VB,OWN,SEQ,TUP,ARR,NT,MS,MAC,LIB],[("vdrop and NEEDS_VDROP",LIB+": VarLen; "+TUP+"; "+ARR+"; "+NT+"; "+MAC),("owner Drop impls",VB+", "+OWN+", "+SEQ),("moves",VB+"/"+OWN+": impl Initializer; Owned::leak")],
  None,["Drop of stored values"])

p("C05","Objects never touch memory outside their own storage",
  "Creating, reading, mutating, copying, moving and destroying objects, boxes, arena objects and sequences only ever reads initialized bytes and writes bytes inside the storage reserved for that object, at properly aligned addresses, and never after that storage was released. Each allocation is requested with a non-zero size and released exactly once with the size and alignment it was requested with, each box occupies one allocation of exactly its object's size and alignment, and nothing stays allocated once all owners are gone.",
  ["histories","programs","inputs"],
  "All safe client histories over all container kinds and element type compositions.",
  "Small overruns, wrong deallocation layouts, uninitialized copies and leaks are invisible to assertions on values in ordinary test runs.",
  [VB,OWN,SEQ,LIB,MS,ARR],[("allocation",VB+": VBox::new, Drop, Initializer; "+SEQ+": try_realloc, Idx::alloc_storage/grow_storage, layout"),("raw copies",LIB+": VCopier; "+VB+"/"+OWN+": Initializer::initialize"),("raw field access",MS)],
  None,["global allocator calls","memory around every allocation"])

p("C06","Predicted layout equals real layout and fields never overlap",
  "For every type and every initializer, the size predicted before construction equals the size reported by the constructed object and equals the documented layout: header first, then each variable part in declaration order at the next offset aligned for it, with no further padding. Every part lies inside the object, parts never overlap, each is aligned for its type, and the type's alignment is the largest any of its parts needs.",
  ["programs","inputs"],
  "All types composed from the provided building blocks, all lengths of their variable parts.",
  "Doc-tests check the total size of half a dozen fixed examples; alignment interplay depends on combinations of types and lengths.",
  [LIB,ARR,TUP,NT,MS,MAC],[("layout computation",MS+": cat_array_field_cautious/fast, cat_field_cautious/fast, array_max"),("per-type layouts",ARR+", "+TUP+", "+NT+", "+MAC)],
  None,["Initializer::calculate_layout_cautious","VarLen::calculate_layout","VarLen::ALIGN","addresses of fields"])

p("C07","Oversized objects are refused instead of wrapping around",
  "Predicting the layout of an object gives no answer exactly when some size or offset in it does not fit the address-size integer, however deeply the part is nested. Creating such an object, or one larger than the largest possible allocation, in a box, a sequence or an arena panics without running the initializer or writing memory and leaves existing contents intact; and converting a slice or string to a length-prefixed object, or a length to a length type, is refused exactly when the length does not fit the chosen length type.",
  ["inputs"],
  "All lengths and element sizes around every power-of-two and limit boundary, for every length type, at every nesting position.",
  "Tests check one overflowing array and length 257 for u8; wrap-around only shows at boundary lengths that depend on element size, alignment and position.",
  [MS,ARR,SEQ,VB,OWN,STR,MAC,TUP],[("checked arithmetic",MS+": cat_array_field_cautious, cat_field_cautious"),("length conversions",ARR+": ArrayLen, try_copy, try_clone_from_slice; "+STR+": try_copy"),("containers",VB+": VBox::new; "+SEQ+": try_push, try_realloc; "+OWN+": new_in")],
  None,["calculate_layout_cautious","VBox::new / Seq::push / Owned::new_in panics"])

p("C08","A failed allocation never corrupts memory or existing data",
  "If any memory allocation made while building a box, growing or filling a sequence, cloning or placing an object in an arena fails, the operation reports it by a panic or by the standard allocation-error abort, and never reads or writes through the missing memory. After such a panic every sequence involved still holds exactly its previous elements and offsets and remains fully usable, and all values are still destroyed exactly once.",
  ["fault_sequences","histories"],
  "Every allocation request of every history failing, one at a time and in pairs.",
  "No test injects an allocation failure.",
  [VB,SEQ,OWN],[("allocation failure handling",VB+": VBox::new; "+SEQ+": try_realloc, must_realloc, grow_storage, try_push; "+OWN+": new_in")],
  None,["global allocator returning null"])

p("C09","Panics in user code leave containers intact",
  "If user-supplied code (an element's clone, default or destructor, a fill function, an iterator, or an initializer given data of the wrong length) panics at any point while an object is being built, cloned, pushed or destroyed, no value is destroyed twice and none that was not fully built is destroyed. A sequence whose push panicked has exactly the elements, offsets and valid indices it had before and stays usable; a sequence whose elements were being taken out or dropped is left empty and usable.",
  ["fault_sequences","histories"],
  "Every call into user code panicking, at every point of every history (up to the stated number of panics).",
  "Tests contain only should_panic examples that end at the panic; nothing inspects the state afterwards.",
  [SEQ,VB,OWN,INI,TUP,MAC,MS],[("order of effects in push",SEQ+": try_push"),("take before drop",SEQ+": take_elems, OwnedElems::drop, Seq::drop"),("element-wise initialization",INI)],
  None,["state after catch_unwind"])

p("C10","Array initializers produce exactly the specified elements",
  "Each way of filling an array (copying, cloning or moving from a source of the same length, defaulting, calling a function per index, taking the front of an iterator) produces exactly the specified elements in order, for heap objects and for fixed-size arrays alike, calls the function once per index in ascending order and takes exactly as many items from the iterator as there are elements. A source of the wrong length, or an iterator that is too short, makes it panic; for every length type and element type the array reports its true length and in-place mutation changes exactly the addressed element.",
  ["inputs"],
  "All lengths up to a bound plus all length-type boundaries, all element sizes/alignments, all source/destination length pairs.",
  "Doc-tests use one or two lengths (3-6) of u16/String per initializer.",
  [INI,ARR],[("initializers",INI+": CopyFrom, CloneFrom, MoveFrom, FillSequentially, FillWithDefault, FromIterPrefix, new_array"),("array access",ARR+": Deref, mut_slice, len_short, SizedInit")],
  None,["Array deref","new_array result","call order of user closures/iterators"])

p("C11","Inline strings always equal their source and stay valid UTF-8",
  "An inline string built from any text, with any length type that can hold its byte length, reads back as exactly that text and keeps doing so after being copied, cloned, boxed, pushed or moved; safe code can never obtain an inline string that is not valid UTF-8. Mutating it through its mutable string view changes exactly the bytes the same mutation would change in an ordinary string.",
  ["inputs","histories"],
  "All strings over an alphabet covering every UTF-8 encoded length, up to a length bound plus length-type boundaries, for all length types.",
  "Tests use short ASCII words only.",
  [STR,ARR],[("Str over Array<u8>",STR+": Str, Deref, mut_slice, copy, try_copy, VClone/VCopy")],
  None,["Str deref","Str::mut_slice"])

p("C12","Tuple fields are independent and read back what was put in",
  "For tuples of every arity and any (also nested) field types, reading any field gives the value its initializer specified, and mutating one field through its mutable view changes that field only. All fields can be mutably accessed at the same time without any two overlapping.",
  ["programs","inputs"],
  "All combinations of field types and field lengths for arities two to five, including nested tuples.",
  "Each arity is tested with strings only, i.e. one alignment and no destructor.",
  [TUP,MS],[("field access",TUP+": refs, muts, Init"),("offset arithmetic",MS+": cat_field_fast, ref_field, mut_field, init_field")],
  None,["TupN::refs","TupN::muts"])

p("C13","Clones and copies are equal and independent",
  "Cloning or bitwise-copying any object that supports it, into a box, arena or sequence, yields an object equal to the source at that moment with the same size, runs each element's own clone exactly once (cloning) or none (copying), and leaves the source unchanged. Afterwards mutating or destroying either one has no effect on the other.",
  ["programs","inputs"],
  "All cloneable/copyable compositions of types and lengths, all destinations.",
  "Doc-tests clone one five-letter string; value equality after divergence is not checked, nor are tuples, arrays of owning elements or nested types.",
  [LIB,ARR,STR,TUP,VB],[("VClone/VCopy impls",LIB+": VCopier, FixedLenCloner; "+ARR+": ArrayCloner; "+STR+": StrCloner; "+TUP+": Cloner; "+VB+": Clone")],
  None,["vclone","vcopy","VBox::clone"])

p("C14","Macro-defined structs behave as declared for every field arrangement",
  "For any struct definition the attribute macro accepts (any order and mix of plain, length-controlling, variable-length and variable-array fields), an object built from its initializer reads back every declared field with its declared value and length, mutable views change exactly the field addressed, and each field's values are destroyed exactly once. Variable parts follow the header in declaration order with each array's length given by its declared length expression.",
  ["programs","inputs"],
  "All struct definitions over a set of field kinds up to a number of fields, with all small values of the length-controlling fields.",
  "Tests define about ten structs; generated code depends on the combination and order of field kinds.",
  [MAC,MS],[("code generation",MAC+": define_varlen_impl, parse_fields, push_normal/push_length/push_varlen/push_varlen_array")],
  None,["generated Init/refs/muts/VarLen impls"])

p("C15","Layout-controlling fields change only when every array length is kept",
  "Setting the length-controlling fields of a macro-defined struct succeeds and stores all new values exactly when the new values give every array of the struct the length it already has; otherwise it reports an error and changes nothing at all. In every case all array contents, other fields and the object's size stay as they were.",
  ["inputs","programs"],
  "All (old, new) pairs of controller values over a bounded domain, for all sets of length expressions considered.",
  "Two tests try one accepting and one rejecting value for a single-controller, single-array struct.",
  [MAC],[("try_set_layout_controllers",MAC+": define_varlen_impl")],
  None,["try_set_layout_controllers result and object state"])

p("C16","Newtype wrappers are transparent",
  "A wrapper type defined around any variable-length type has exactly the inner type's alignment, layout, contents and destruction behaviour: building it from any initializer of the inner type yields an object whose inner view equals what that initializer would have built directly, in boxes, arenas and sequences alike. Mutation through the wrapper's mutable view is mutation of the inner object, and wrappers of wrappers behave likewise.",
  ["programs","inputs"],
  "All wrapped types of the considered family (including types with destructors), one and two levels of wrapping.",
  "Doc-tests wrap one tuple without destructors and check its contents once.",
  [NT],[("define_varlen_newtype!, impl_initializer_as_newtype!",NT)],
  None,["wrapper VarLen/Initializer impls, inner accessors"])

p("C17","Iterators are exact, bounded, and safe to abandon",
  "From any point of iteration, every iterator over a sequence reports exactly the number of items it will still yield (also when limited to a maximum count), yields them in order, then ends and stays ended; skipping, jumping, counting or folding gives what the same operation gives on a list. Abandoning an iterator part-way affects nothing except that an owning iterator destroys the elements it has not yielded.",
  ["histories","inputs"],
  "All sequences up to a length, all interleavings of next/nth/limit/count-style calls on all three iterator kinds, all abandonment points.",
  "Doc-tests run whole iterations, and one limit smaller than the length.",
  [SEQ],[("iterators",SEQ+": Iter, IterMut, OwnedElems, limited_to, size_hint, count, len")],
  None,["Iterator/ExactSizeIterator methods"])

p("C18","Safe client code cannot break an object or outlive its storage",
  "No program without unsafe code that compiles can separate an object's header from its tail (swap, overwrite, move out, copy or construct a header on its own), change a length-controlling field through a mutable view, let an array length depend on anything but the declared controllers, use a reference, iterator, initializer or owned element after the box, arena or sequence it borrows from was changed, moved or destroyed, or send non-sendable contents to another thread. The corresponding programs that respect these rules do compile.",
  ["programs"],
  "All client programs of a bounded grammar: every borrowing operation x every conflicting action, every type x every head/tail-separating action, every container x element thread-safety class.",
  "Five compile-fail examples cover macro diagnostics only (and do not pass on this toolchain); nothing tests borrow lifetimes, pinning or thread-safety.",
  [MK,OWN,SEQ,VB,LIB,ARR,TUP,MAC,NT],[("pinned markers",MK+": FieldMarker, ArrayMarker"),("lifetimes in signatures",SEQ+", "+OWN+", "+VB+", "+LIB),("const length functions, controller visibility",MAC)],
  None,["rustc's verdict on client programs"])

p("C19","Growing a sequence costs amortized constant work",
  "Over any push history, the number of times a sequence asks for new storage grows at most logarithmically with the total size pushed, and total bytes requested stay within a constant factor of the bytes pushed. A sequence that has capacity for the next element never requests storage, and re-using a sequence after its elements were taken out re-uses the storage it has.",
  ["histories","inputs"],
  "All patterns of element sizes and re-use over long push histories, all alignments, both indexing modes.",
  "No test counts allocations.",
  [SEQ],[("doubling growth",SEQ+": try_realloc, try_push, take_elems")],
  [("capacity_offsets","storage capacity in alignment units",SEQ)],["global allocator calls","Seq::capacity_in_offsets"])

p("C20","Moving an object between owners preserves it exactly",
  "Using a box, an arena object or an element taken from a sequence as the initializer for another place (box, arena, sequence, tuple field, struct field or wrapper) yields an object with exactly the same contents and size there, whatever its type and length. The source's own storage is released without destroying the moved values, neighbouring objects are unaffected, and chains of such moves of any length behave the same.",
  ["histories","programs"],
  "All chains of moves between owner kinds, for all type compositions, up to a length.",
  "Tests push one boxed string into a sequence; arena objects and taken elements are never moved anywhere.",
  [VB,OWN,SEQ,TUP],[("moves",VB+": impl Initializer for VBox; "+OWN+": impl Initializer for Owned, into_raw/from_raw"),("nested initializers",TUP+": Init; "+MS+": init_field")],
  None,["contents and size after each move"])

p("C21","Generated items are exactly what their declaration says, wherever it stands",
  "For every declaration the struct macro or the newtype macros accept, each generated type, method, field and view can be named from exactly the places that the declared visibility of the definition and of that field or signature allows (inside the module, its children, its parent, the crate, other crates), and has the declared type: plain fields as & and &mut, length-controlling fields only as &, variable-length fields as & and Pin<&mut>, arrays as slices. Declared attributes, field order, generic parameters and the snake-case module name are kept. The generated code means the same whatever else is in scope: nothing the user defines (names, traits, or methods called like the library's on the user's own types) is picked up in place of the library's. Declarations that break the documented rules (not a struct with named fields, more than one of the field attributes on a field, an array field that is not an array, an unsupported visibility, a length that is not const or uses anything but the controllers) are refused.",
  ["programs"],
  "All client programs of a grid: visibilities of the definition x of its fields x place of the client x way of naming; field x view x type; misused definitions; surroundings of a definition.",
  "Tests declare one struct with mixed visibilities and never try to name anything from where it must be hidden; no test defines anything in the surroundings of a declaration.",
  [MAC,NT],[("visibility mapping",MAC+": SimpleVisibility, OneMeta::parse"),("generated items",MAC+": define_varlen_impl"),("attribute checks",MAC+": parse_fields, push_varlen_array"),("newtype items",NT+": define_varlen_newtype, impl_initializer_as_newtype")],
  None,["rustc's verdict on client programs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
