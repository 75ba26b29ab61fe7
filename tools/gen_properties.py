#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long lines stay reviewable)."""
import json, os
S = "pyfastutil/src/"
IA, BA, IL = S + "ints/IntArrayList.cpp", S + "ints/BigIntArrayList.cpp", S + "ints/IntLinkedList.cpp"
OA, OL = S + "objects/ObjectArrayList.cpp", S + "objects/ObjectLinkedList.cpp"
IAI, BAI, ILI = S + "ints/IntArrayListIter.cpp", S + "ints/BigIntArrayListIter.cpp", S + "ints/IntLinkedListIter.cpp"
OAI, OLI = S + "objects/ObjectArrayListIter.cpp", S + "objects/ObjectLinkedListIter.cpp"
PU = S + "utils/PythonUtils.h"
LISTS = [IA, BA, IL, OA, OL]
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Element operations behave as on the built-in list in every history",
     "After any sequence of append, insert, extend, pop, remove, clear, reverse, resize, item reads, item assignments and item deletions, "
     "each of the five containers (IntArrayList, BigIntArrayList, IntLinkedList, ObjectArrayList, ObjectLinkedList) holds exactly the elements, in order, that a built-in list holds after the same sequence, where resize pads with 0 (int lists) or None (ObjectArrayList) and truncates at the end. "
     "Every call along the way returns what list returns, len, index, count and `in` included; queries look for equal elements (identical or ==), as list does. "
     "For the int containers this is promised for arguments that are ints in the element type's range.",
     ["histories", "inputs"],
     "all finite operation histories, element values and positions (negative, out of range), for each container and each way its storage came about (constructed, grown, shrunk, preallocated)",
     "The tests make one call per method on a three-element list with small positive values; wrong behaviour that needs a second operation, a negative or duplicate value, a head/tail/middle position or a larger list is never reached.",
     LISTS,
     [("method table of each container", f"{x}: *_append, *_insert, *_extend, *_pop, *_remove, *_index, *_count, *_getitem, *_setitem") for x in LISTS]
     + [("at(): walks a linked list from the nearer end", S + "utils/Utils.h")],
     [("vector", "elements of the array lists", IA + ", " + BA + ", " + OA), ("list", "nodes of the linked lists", IL + ", " + OL)],
     ["return values and exceptions of each call", "len(), iteration, to_list(), repr after each call"])

prop("C02", "Indexing and slicing accept and mean what list indexing means",
     "For every start, stop and step, reading a slice of any container gives the list that list slicing gives; assigning any iterable to a contiguous slice and deleting any slice leave the container holding what a list would hold. "
     "An integer index, negative ones included, selects the same element as in a list, and an index out of range raises IndexError for reads, writes, deletions and pop; the abstract sequence interface of C (PySequence_*) sees what it sees in a list. "
     "Assigning to a slice with a step other than 1 may be refused with NotImplementedError, but then changes nothing.",
     ["inputs", "histories"],
     "all container lengths, all (start, stop, step) triples including None, negative, reversed and far out of range, all replacement lengths and kinds of iterable, the container itself included",
     "The tests slice one list with three in-range slices and never assign to or delete a slice.",
     LISTS,
     [("slice read", "*_getitem_slice in each container"), ("slice write: equal, fewer, more elements", "*_setitem_slice in each container"), ("index normalisation", "*_getitem, *_setitem, *_pop")],
     observe=["result of x[i:j:k]", "contents after x[i:j] = v and del x[i:j:k]"])

prop("C03", "sort() yields the ordered permutation list.sort() would, stably",
     "For every container, sort() with any combination of key and reverse leaves exactly the sequence that list.sort with the same arguments leaves: the same elements, none lost, duplicated or altered, ordered, with equal keys in their original order (also under reverse). "
     "This holds for every length, element distribution, sign and magnitude. "
     "If the key function or a comparison raises, that exception is raised and the container still holds a permutation of its original elements.",
     ["inputs"],
     "all element sequences (lengths, run structures, duplicates, extremes), all key functions, both directions, and a failure at every key or comparison call",
     "The tests sort three distinct small positive numbers (seven in reverse); the vectorised sort, runs, merges, galloping, stability and errors are never observed (the benchmark sorts 10,000 elements but never looks at the result).",
     LISTS + [S + "utils/simd/BitonicSort.cpp", S + "utils/include/CPythonSort.c", S + "utils/include/TimSort.h"],
     [("vectorised sort with fallback", S + "utils/simd/BitonicSort.cpp: simdsort"), ("port of CPython's list sort", S + "utils/include/CPythonSort.c: CPython_sort"), ("*_sort", "each container")],
     observe=["contents after sort()", "exception raised by sort()"])

prop("C04", "Comparisons agree with list comparison",
     "Comparing a container with another container of this package or with a built-in list of the same kind of elements by ==, !=, <, <=, > or >= gives the answer list comparison gives on their contents: lexicographic order decided by the first differing element, then by length. "
     "Exactly one of <, ==, > holds between two such sequences of ints, <= is < or ==, != is not ==, and == with a list holding elements of other types answers False instead of raising. "
     "Comparing never changes either operand.",
     ["inputs"],
     "all pairs of sequences (equal, prefix of one another, differing at any position, empty, extreme values), all six operators, both operand orders, all pairings of container types",
     "The tests compare with == and != only, against one equal and one different list.",
     LISTS,
     [("*_compare and *_eq, *_ne, *_lt, *_le, *_gt, *_ge", "each container")],
     observe=["result of each operator"])

prop("C05", "Iterators stay safe and in step while the container changes",
     "A forward or reversed iterator over any container, interleaved in any way with changes to that container, never touches freed memory and produces at each step what a list's iterator produces under the same changes: the element now at its position, and StopIteration once its position is outside the container. "
     "Once exhausted it stays exhausted, and it keeps its container alive. "
     "Any number of iterators over one container work independently.",
     ["histories", "schedules"],
     "all interleavings of next() on several forward and reversed iterators with every mutating operation, and with the release of the container",
     "The tests iterate once over an unchanging list and never build a reversed iterator.",
     [IAI, BAI, ILI, OAI, OLI] + LISTS,
     [("iterator position and cached node, invalidated by a modification counter", ILI + ", " + OLI), ("bounds check per step", IAI + ", " + BAI + ", " + OAI)],
     [("index", "iterator position", "all iterators"), ("modCount", "version of a linked list, compared by its iterators", IL + ", " + OL)],
     ["values and StopIteration from next()"])

prop("C06", "Concatenation and repetition match list, also on the container itself",
     "For all operands, a + b, a += b, a * n, n * a, a *= n and a.extend(b) give the contents the same expression gives on lists, for every n (zero and negative included) and when both operands are the same object; += and *= leave the name bound to the same container. "
     "The result of + or * is independent of its operands, and operands of + and * are not changed. "
     "a + b for two containers of one type is a container of that type.",
     ["inputs", "histories"],
     "all operand lengths and contents, all repeat counts, all kinds of right operand (same type, list, tuple, generator, the container itself)",
     "No test uses +, +=, * or *=; extend is tested once with a two-element list.",
     LISTS + [S + "utils/simd/SIMDUtils.h", S + "utils/memory/FastMemcpy.h"],
     [("*_add, *_iadd, *_mul, *_rmul, *_imul, *_extend", "each container"), ("vectorised copy", S + "utils/simd/SIMDUtils.h")],
     observe=["result object and type", "contents of operands afterwards"])

prop("C07", "Every representable integer is read back as the same number",
     "An int stored in IntArrayList or IntLinkedList (-2^31 to 2^31-1) or BigIntArrayList (-2^63 to 2^63-1) is read back, through every way of reading (item, slice, iteration forwards and backwards, pop, to_list, repr, comparison, buffer), as an ordinary int equal to it: equal in comparisons, of the same hash, printing and computing the same. "
     "This holds for every value, every position and every way of storing it. "
     "Native calls returning an int through Unsafe follow the same rule.",
     ["inputs"],
     "all values of the element type at every boundary of its representation (sign, digit and word boundaries), crossed with all storing and reading paths",
     "The tests read back only small positive numbers individually; extremes are only compared as a whole through numpy.",
     [PU, IA, BA, IL, IAI, BAI, ILI, S + "unsafe/Unsafe.cpp"],
     [("PyFast_FromInt, PyFast_AsInt: conversions that bypass the public int API", PU)],
     observe=["type, ==, hash, str and arithmetic of each value read"])

prop("C08", "Construction, ranges, copies and conversions are faithful and independent",
     "Building a container from any iterable gives its elements in iteration order, whatever size hint accompanies it; from_range(...) gives list(range(...)) for all one-, two- and three-argument forms, positive and negative steps and empty ranges included, and refuses step 0 with ValueError. "
     "copy(), to_list() and construction from another container give equal contents that share no later change with their source. "
     "A size hint or preallocation never changes the contents; repr and str are those of the equal list.",
     ["inputs", "histories"],
     "all kinds of source (list, tuple, generator, range, set, dict, each container type), lengths, size hints, and all range triples",
     "The tests build from one list and three ranges, and compare a copy with its source without changing either.",
     LISTS + [PU],
     [("*_init, *_from_range, *_copy, *_to_list, *_repr", "each container"), ("PyParse_EvalRange", PU)],
     observe=["contents, repr and type after construction", "contents of source and copy after changing either"])

prop("C09", "A refused operation raises its own exception and changes nothing",
     "When a container operation gets an argument it cannot accept (wrong type, wrong number of arguments, missing element, index out of range, an iterable or conversion that raises), it raises a meaningful exception (for a source that raises, that very exception) and never SystemError, and never returns a result with an error pending. "
     "An operation on a single element, a slice assignment, an insertion, a construction or a query refused this way leaves the container exactly as it was, and a bulk extend leaves it with its old elements followed by at most the elements accepted before the failure. "
     "The container stays fully usable afterwards.",
     ["inputs", "fault_sequences", "histories"],
     "all operations, each invalid argument in each position, and sources that fail at each step",
     "The tests check three error cases (pop from empty, index out of range, missing value).",
     LISTS + [PU],
     [("argument parsing and error returns of every method", "each container")],
     observe=["exception type", "contents after the failed call", "a follow-up operation"])

prop("C10", "Object containers own exactly one reference per element",
     "Through any history of operations, including failing ones, an object container keeps alive exactly the elements it holds: each stored occurrence owns one reference, each removal, replacement, truncation, slice operation, clear, re-initialisation or destruction gives up exactly the references of the elements that leave. "
     "No operation on any of the containers changes the reference count of its arguments or results beyond what it visibly stores or returns. "
     "When the container and its iterators are gone, every element has its original count.",
     ["histories"],
     "all operation histories on both object containers, all operations of the int containers",
     "The tests never look at a reference count or at an element's destruction.",
     [OA, OL, OAI, OLI, PU, IL, IA, BA],
     [("Py_INCREF/Py_DECREF, SAFE_DECREF and bulk pointer copies", OA + ", " + OL), ("PyFast_INCREF/PyFast_DECREF", PU)],
     [("ob_refcnt of each element", "owners of the element", "observed by the check")],
     ["sys.getrefcount of each element", "finalisers run"])

prop("C11", "User code called back during an operation cannot corrupt a container",
     "While a container operation calls back into Python (an element's __eq__, __lt__, __repr__, __del__ or __index__, a key function, an iterable being consumed), that code may read and change the same container in any way. "
     "The process never crashes, never reads or frees an object that is gone, and never loses or duplicates ownership of an element; afterwards the container is a valid sequence of live elements. "
     "A repr that reaches itself terminates.",
     ["histories", "schedules"],
     "all operations that call back, all mutations performed in the callback, at every call of the callback",
     "No test passes user-defined element types or a callback that touches the container.",
     LISTS + [OAI, OLI, S + "utils/include/CPythonSort.c"],
     [("loops that compare, format, convert or release elements", OA + ", " + OL), ("sort with key", "each container: *_sort")],
     observe=["process survival under AddressSanitizer", "contents and reference counts afterwards"])

prop("C12", "Exported buffers stay valid and show the container's elements",
     "A memoryview or numpy array obtained from IntArrayList or BigIntArrayList has one dimension, the container's length, its element size and a format that reads its elements, and shares memory with it in both directions. "
     "As long as any view exists, its memory stays valid: it keeps the container alive, and an operation that would change the container's length is either refused with BufferError, changing nothing, or leaves every view's contents intact. "
     "After the last view is released, all operations work again.",
     ["histories"],
     "all histories of acquiring and releasing views, reading and writing through them, and container operations, including dropping the container first",
     "The tests build one numpy array from an unchanging list and compare it at once.",
     [IA, BA],
     [("*_get_buffer and the buffer slots", IA + ", " + BA)],
     [("shape", "length reported to views", IA + ", " + BA)],
     ["memoryview attributes and contents", "operations while a view exists"])

prop("C13", "Container operations are atomic with respect to other threads",
     "When several threads use one container, each operation that takes no user callback (sort, reverse, repetition, copying, element and slice operations) takes effect as a whole: whatever the schedule, results and contents are those of the operations in some order. "
     "No schedule crashes, corrupts memory or lets a thread observe a container half way through another thread's operation. "
     "This includes operations that let other threads run while they work.",
     ["schedules"],
     "all interleavings of operations of two and three threads at every point where a container operation gives up the interpreter lock",
     "No test starts a thread.",
     LISTS + [S + "utils/simd/BitonicSort.cpp"],
     [("interpreter lock, and the places that give it up around bulk work", "*_sort, *_reverse, *_mul, *_imul in the containers")],
     observe=["contents and results for each schedule"])

prop("C14", "Running out of memory never corrupts or crashes a container",
     "If an allocation fails at any point inside a container operation or the creation of an iterator, the operation raises an exception (MemoryError or RuntimeError) instead of ending the process, and leaks no references. "
     "The container stays a valid sequence: an element operation, slice assignment, repetition or sort that failed this way leaves the contents unchanged (a sort may leave a permutation), and a bulk extend keeps the old elements followed by at most some of the new ones. "
     "The same operation succeeds when repeated with memory available.",
     ["fault_sequences"],
     "each operation, each allocation it makes (interpreter or C++ heap) failing in turn, and also all later ones failing",
     "No test makes an allocation fail.",
     LISTS + [S + "utils/memory/AlignedAllocator.h", S + "utils/simd/BitonicSort.cpp"],
     [("try/catch around C++ container growth", "each container"), ("AlignedAllocator::allocate", S + "utils/memory/AlignedAllocator.h")],
     observe=["exception type", "contents and reference counts after the failure", "repeat of the operation"])

prop("C15", "Unsafe memory operations act on exactly the bytes they name",
     "For every sequence of malloc, calloc, realloc, free, aligned_malloc, aligned_free, set, get, memcpy and memset on live blocks, each get returns exactly the bytes that a plain byte-array model of those operations holds, for every size and offset. "
     "calloc memory reads as zero, realloc keeps the common prefix, aligned_malloc returns addresses that are multiples of the alignment, memset uses the low byte of its value; a size or address that does not fit in 64 bits, and a wrong number or kind of arguments, is refused. "
     "No operation reads or writes a byte outside the ranges it is given, and no argument object is changed.",
     ["histories", "inputs"],
     "all operation sequences over a small set of blocks, all sizes and offsets around word and vector boundaries, all fill values",
     "The tests do one write and one read of each kind with fixed sizes.",
     [S + "unsafe/Unsafe.cpp", S + "utils/memory/FastMemcpy.h", S + "utils/memory/AlignedAllocator.h"],
     [("Unsafe_malloc ... Unsafe_memset", S + "unsafe/Unsafe.cpp"), ("fast_memcpy", S + "utils/memory/FastMemcpy.h")],
     observe=["bytes returned by get", "guard bytes around each range"])

prop("C16", "Unsafe object access and native calls keep counts and values exact",
     "get_address and as_object are inverse, and as_object returns an owned reference: no sequence of them changes an object's reference count once its results are dropped. "
     "incref and decref change the count by exactly one, refcnt reports the current count, and none of them affects another object. "
     "callVoid, callInt, callLongLong and call run the function at the address exactly once and deliver its full result, negative values and results of every size from 0 to 8 bytes included. "
     "A with block on the object gives the object itself, keeps all counts and lets exceptions through.",
     ["histories", "inputs"],
     "all sequences of these operations on a set of objects; all result values at representation boundaries and all result sizes",
     "One round trip and one incref/decref pair are tested; the native call tests are skipped on this platform.",
     [S + "unsafe/Unsafe.cpp", PU],
     [("Unsafe_get_address, Unsafe_as_object, Unsafe_incref, Unsafe_decref, Unsafe_refcnt, Unsafe_call*", S + "unsafe/Unsafe.cpp")],
     observe=["reference counts", "results of native calls", "call counter of the called function"])

prop("C17", "Unsafe stream functions pass text through unchanged",
     "fputs writes exactly the bytes of the given text to standard output, in call order, and they are all delivered once fflush returns. "
     "fgets(n) returns the next line, newline included, or its next n-1 bytes if it is longer, so that consecutive calls return the input without loss or repetition, and the empty string at end of input. "
     "Repeated calls do not accumulate memory.",
     ["histories", "inputs"],
     "all sequences of fputs/fflush/fgets, all line lengths relative to the buffer size, input ending with or without a newline",
     "One fputs and one fflush are called and their output is not looked at; fgets is never called.",
     [S + "unsafe/Unsafe.cpp"],
     [("Unsafe_fputs, Unsafe_fflush, Unsafe_fgets", S + "unsafe/Unsafe.cpp")],
     observe=["bytes arriving in a pipe", "strings returned by fgets", "process memory"])

prop("C18", "SIMD copy and reverse are exact for every type, count and address",
     "For each element type, memcpy<T>(from, to, n) and memcpy<T>Aligned(from, to, n) make the n elements at `to` equal to those at `from`, and reverse<T>(p, n) reverses the n elements at p, each element's bytes kept intact. "
     "This holds for every n including 0, every address the function accepts (Aligned: multiples of 64), and every content. "
     "No byte outside the destination changes, none outside the source is read, and the source of a copy is unchanged; a call with a wrong number or kind of arguments is refused and changes nothing.",
     ["inputs"],
     "all 29 element types, all counts through every vector-width boundary and selected large ones, all address offsets within a cache line",
     "The tests copy 16 identical elements per type; reverse is never called, and no count crosses or misses a vector boundary.",
     [S + "unsafe/SIMD.cpp", S + "utils/simd/SIMDUtils.h", S + "utils/include/qreverse.hpp", S + "utils/memory/FastMemcpy.h"],
     [("simdMemCpy, simdMemCpyAligned, simdReverse", S + "utils/simd/SIMDUtils.h"), ("qReverse", S + "utils/include/qreverse.hpp"), ("method table per type", S + "unsafe/SIMD.cpp")],
     observe=["bytes of source, destination and guard areas"])

prop("C19", "SIMD vector setters place every lane; feature flags tell the truth",
     "setAVX512Vector32/16/8 and setAVX2Vector32/16/8 store their arguments as consecutive elements of the named width, the last argument at the lowest address, for every value of that width, negative ones included, and write nothing beyond the vector. "
     "Each is<Feature>Supported() answers what the processor and operating system report. "
     "A wrong number of arguments, an argument that is not an integer, or one too large to convert raises (TypeError or OverflowError) and stores nothing. "
     "A with block on the SIMD object gives the object itself, keeps all counts and lets exceptions through.",
     ["inputs", "configurations"],
     "all combinations of CPUID and XCR0 bits the flags depend on; each lane of each setter with every boundary value of its width, all lanes distinct; all argument counts",
     "The tests set lanes to 0, 1, 2, ... once, so a sign error or a lane holding a value above its index is invisible, and only check that flags are bools.",
     [S + "unsafe/SIMD.cpp", S + "utils/simd/SIMDHelper.cpp", PU],
     [("SIMD_setAVX*Vector*", S + "unsafe/SIMD.cpp"), ("PyFast_AsInt, PyFast_AsShort, PyFast_AsChar", PU), ("CPUID queries", S + "utils/simd/SIMDHelper.cpp")],
     observe=["bytes of the vector and its surroundings", "flags against /proc/cpuinfo"])

prop("C20", "Each AVX-512 binding performs exactly the intrinsic it is named after",
     "Every method of SIMDLowAVX512 applies the C intrinsic of the same name (with a leading underscore) to its operands in the documented order and stores the result, bit for bit, at the address given first; store style methods write where the intrinsic writes. Vectors, masks and pointers are given by the address of a variable that holds them, numbers as Python ints or floats. "
     "Operands passed by address are not changed, nothing beyond the result is written, and a wrong number of arguments is refused with TypeError. "
     "The named constants have the values the intrinsics' header gives them. A with block gives the object itself, keeps all counts and lets exceptions through.",
     ["inputs", "configurations"],
     "all bindings that are implemented, operand tuples covering every lane with distinguishing values, masks (none, all, alternating, single), scalar boundary values and every immediate the method accepts",
     "No test calls SIMDLowAVX512 at all.",
     [S + "unsafe/SIMDLowAVX512.cpp", "scripts/GenerateAVX512Bindings.py", "pyfastutil/unsafe/__SIMDLowAVX512Defines.py", "pyfastutil/unsafe/SIMDLowAVX512.pyi", PU],
     [("one generated wrapper per intrinsic", S + "unsafe/SIMDLowAVX512.cpp")],
     observe=["bytes of the result, operands and guard areas"])

prop("C21", "Unreachable cycles through object containers are reclaimed",
     "When ObjectArrayList or ObjectLinkedList objects, alone or together with other collectable objects and iterators over them, refer to one another in a cycle and nothing else refers to them, the garbage collector reclaims them and releases every element they hold. "
     "Objects still reachable from outside are never reclaimed or emptied by a collection. "
     "A collection may run at any allocation inside an operation without harm.",
     ["histories", "inputs"],
     "all reference graphs over a few containers, iterators and plain objects with any subset held from outside, and a collection at every point of an operation history",
     "No test builds a cycle or runs the collector.",
     [OA, OL, OAI, OLI],
     [("type flags and deallocation of the containers and iterators", OA + ", " + OL + ", " + OAI + ", " + OLI)],
     observe=["weak references and finalisers of graph members after gc.collect()"])

prop("C22", "Machine code handed to ASM runs until freed, and never after",
     "makeFunction returns the address of an executable copy of exactly the given bytes, independent of the caller's buffer; calling it executes those bytes, freeFunction releases it, and no sequence of makes and frees lets two live functions overlap. "
     "On a platform where this is not supported every method raises NotImplementedError and has no other effect. "
     "A with block on the ASM object gives the object itself, keeps all counts and lets exceptions through.",
     ["histories", "configurations"],
     "all sequences of makeFunction, runFast and freeFunction, all code lengths",
     "The tests of ASM only run on Windows, on one-instruction functions.",
     [S + "unsafe/ASM.cpp"],
     [("ASM_makeFunction, ASM_freeFunction, ASM_run*", S + "unsafe/ASM.cpp")],
     observe=["results of calling made functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
