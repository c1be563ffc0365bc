#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
B="include/boost/circular_buffer/base.hpp"; D="include/boost/circular_buffer/details.hpp"
G="include/boost/circular_buffer/debug.hpp"; S="include/boost/circular_buffer/space_optimized.hpp"
H="include/boost/circular_buffer.hpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Pushes and pops behave as a bounded double-ended ring",
  "In every reachable state of either container, push_back/push_front (by copy, by move, or default element) adds exactly one element at its end, drops exactly the element at the opposite end when the container is full, and does nothing when the capacity is 0; pop_back/pop_front removes exactly the end element. All other elements keep their values and relative order, the size never exceeds the capacity, and the capacity does not change.",
  ["histories","inputs"],
  "Every reachable internal layout (capacity, wrap-around position, fill level, and for the space-optimized container every allocated size and minimum) of capacities up to the bound, times every push/pop form.",
  "The tests push and pop on a handful of layouts; whether indices wrap correctly depends on the combination of capacity, start offset and fill level, which no test enumerates.",
  [B,S],[("push_back_impl/push_front_impl",B+":1421"),("pop_back/pop_front",B+":1600"),("increment/decrement wrap",B+":2349"),("grow/shrink around push and pop",S+":1543")],
  ["size(), capacity(), full content by index and by iteration after each call"])
p("C02","insert and rinsert keep capacity and overwrite the right elements",
  "For every state, position and count, inserting one item, n copies or a range places exactly the documented items in order at the documented position: insert keeps the last min(n, elements before pos + free space) items and overwrites from the beginning, rinsert keeps the first min(n, elements behind pos + free space) items and overwrites from the end, so the capacity never changes. The single-item forms return an iterator to the inserted item, or begin() (insert) / end() (rinsert) when nothing is inserted because the full container would overwrite only the item itself. The result is the same for random-access, bidirectional, forward, move and single-pass input iterators; a single-pass range is read once and in order.",
  ["histories","inputs"],
  "All reachable layouts up to the capacity bound, all positions, all counts from 0 past the capacity, all iterator categories, both containers.",
  "The tests check documentation examples; the insertion code has separate paths per wrap position, fullness, count versus free space, and iterator category, and their combinations are not sampled.",
  [B,S],[("insert_item / rinsert_impl",B+":2757"),("insert_n",B+":2836"),("rinsert_n",B+":2920"),("input-iterator insert/rinsert",B+":2810"),("space-optimized range insert",S+":1633")],
  ["returned iterator, content, size, capacity"])
p("C03","Erasing removes exactly the requested elements",
  "For every state, erase/rerase of a position or range, erase_begin(n)/erase_end(n) and clear remove exactly the designated elements and keep the remaining ones in order, leaving the capacity unchanged. erase returns an iterator to the first element beyond the removed ones (or end()), rerase to the first element in front of them (or begin()); an empty range removes nothing.",
  ["histories","inputs"],
  "All reachable layouts up to the capacity bound times all positions and all ranges [first,last), scalar and class element types, both containers.",
  "Tests erase a few ranges in one or two layouts; the shifting loops cross the wrap-around boundary differently for each start offset and range.",
  [B,S],[("erase",B+":2113"),("erase range",B+":2150"),("rerase",B+":2190"),("rerase range",B+":2230"),("erase_begin/erase_end",B+":2972"),("destroy_content",B+":2461"),("space-optimized erase",S+":1399")],
  ["returned iterator, content, size, capacity"])
p("C04","Capacity and size changes keep the documented end of the content",
  "set_capacity(n) keeps the first min(size,n) elements and rset_capacity(n) the last min(size,n), and the capacity becomes exactly n; resize(n,item) truncates or extends at the end and rresize(n,item) at the beginning, the new elements equal item and the capacity grows to n only when n exceeds it. For the space-optimized container the capacity controller becomes the given one (resize keeps the minimum), with the same content.",
  ["histories","inputs"],
  "All reachable layouts up to the capacity bound times all new capacities, sizes and minimum capacities up to past the bound.",
  "Tests resize a few buffers; truncation from either side of a wrapped buffer depends on offset, size and the new capacity together.",
  [B,S],[("set_capacity",B+":876"),("rset_capacity",B+":952"),("resize/rresize",B+":919"),("reset",B+":2627"),("space-optimized set_capacity/rset_capacity",S+":225")],
  ["content, size, capacity controller"])
p("C05","Construction, assignment, copy, move and swap transfer exact state",
  "Every constructor and assign overload yields exactly the documented content and capacity: ranges longer than the capacity keep their last elements, and all iterator categories agree. A copy equals its source (content and capacity) and is independent of it, a move leaves the target with the source's former state and the source empty and fully usable, swap exchanges both states completely, and self-assignment changes nothing.",
  ["histories","inputs"],
  "All pairs of reachable source/target layouts up to the capacity bound, all counts, capacities and iterator categories; both containers; each result is then used further.",
  "Tests copy and swap a few fixed buffers; the target's and source's layouts are independent dimensions whose product is not sampled.",
  [B,S],[("constructors",B+":1024"),("initialize (ranges)",B+":2512"),("operator=",B+":1226"),("assign_n",B+":2727"),("swap",B+":1404"),("space-optimized constructors/assign/swap",S+":352")],
  ["content, size, capacity of both objects; behaviour of both under later operations"])
p("C06","linearize, rotate and the array views describe the true content",
  "array_one followed by array_two is always exactly the sequence of elements, both inside the container's storage, and is_linearized() holds exactly when array_two is empty. linearize() makes the content contiguous in order and returns its address (null if empty) without changing content or capacity, and after it is_linearized() holds for a non-empty container; rotate(it) makes *it the first element while keeping the cyclic order, size and capacity.",
  ["histories","inputs"],
  "All reachable layouts up to the capacity bound (including larger bound for the in-place linearize permutation), every rotation point, all element categories.",
  "linearize moves elements in place by cycles whose structure depends on (offset, size, capacity) arithmetic; tests cover a few triples only.",
  [B],[("linearize",B+":650"),("is_linearized",B+":711"),("rotate",B+":740"),("array_one/array_two",B+":566")],
  ["array_one(), array_two(), is_linearized(), linearize(), content"])
p("C07","Element access and iterators form a consistent random-access view",
  "In every reachable state, operator[], at, front, back, forward, reverse, const and non-const iteration all present the same elements, and at(i) throws std::out_of_range exactly when i >= size(). Iterator arithmetic, difference, ordering, equality, increment, decrement, indexing and iterator-to-const_iterator conversion agree with the integer positions they stand for, including begin(), end() and positions across the wrap-around.",
  ["histories","inputs"],
  "All reachable layouts up to the capacity bound, all pairs of positions 0..size, all const/non-const/reverse combinations.",
  "Iterator arithmetic has special cases for end(), full and wrapped layouts; tests sample few pairs.",
  [B,D],[("operator[]/at/front/back",B+":386"),("add/sub",B+":2364"),("iterator",D+":199"),("linearize_pointer",D+":408")],
  ["iterator expressions and element references"])
p("C08","Comparison operators are lexicographic on content only",
  "For every pair of containers the six relational operators agree with std::equal/lexicographic comparison of the two element sequences: two containers with equal sequences are equal whatever their capacities, internal layout or history. The operators are mutually consistent, including for element types whose < is only a strict weak order, and use only the elements' == and <.",
  ["histories","inputs"],
  "All pairs of reachable layouts and all small-alphabet contents up to the bound, both containers.",
  "Tests compare a few equal and unequal buffers, mostly linear ones.",
  [B,S],[("operator== / <",B+":3012"),("derived operators",B+":3051"),("space-optimized operators",S+":1657")],
  ["result of ==, !=, <, >, <=, >="])
p("C09","Every element is constructed once, destroyed once and never leaked",
  "Whatever sequence of operations is performed, an element object is only read, assigned or destroyed while it is alive, is constructed only in raw storage, and is destroyed exactly once; between operations the live objects inside the container are exactly its elements. After the container's destruction no element remains alive, and every block of memory it obtained was returned exactly once, with the size it was requested with, to an equal allocator.",
  ["histories","inputs"],
  "All reachable layouts up to the capacity bound times the complete operation alphabet with all arguments, for copy-only, copyable-with-move and move-only element types, both containers.",
  "The existing instance counters look at totals at the end of a few tests; a slot constructed over a live element or destroyed while uninitialized in a rare layout is not seen.",
  [B,D,S],[("construct_or_replace",B+":2430"),("is_uninitialized/destroy_if_constructed",B+":2407"),("destroy",B+":2481"),("uninitialized_copy",D+":427"),("linearize",B+":650")],
  ["element constructors, assignments and destructors; allocator calls"])
p("C10","A throwing element operation or allocation leaves a valid container",
  "If any element copy, move, assignment, default construction, iterator access or memory allocation throws during any operation, the container remains valid: it holds only live elements, its size and capacity are consistent, nothing is leaked or destroyed twice, and every further operation including destruction behaves normally. A constructor that throws releases everything it acquired, and operations documented not to throw do not throw.",
  ["fault_sequences","histories"],
  "Every operation in every reachable layout up to the bound, with the fault injected at each of its 1..k fault points, then the resulting state explored further.",
  "The existing exception tests throw at a few chosen points in chosen layouts; the rollback code depends on which slots had been constructed at the moment of the throw.",
  [B,D,S],[("catch handlers of insert_n/rinsert_n",B+":2848"),("linearize rollback",B+":680"),("push_front rollback",B+":1450"),("initialize_buffer rollback",B+":2499"),("range constructor rollback",B+":2603"),("assign_n rollback",B+":2727")],
  ["state after a caught exception: content, liveness, allocations"])
p("C11","Operations promising strong exception safety roll back completely",
  "If set_capacity, rset_capacity, copy assignment or at() exits with an exception, the container's content, element values and order, and capacity are exactly what they were before the call. This holds for copyable elements whether or not their moves may throw, and at every point of failure including memory exhaustion.",
  ["fault_sequences","histories"],
  "All reachable layouts up to the bound times all arguments of these operations times every fault point.",
  "Existing tests check one or two failures of these operations, from linear layouts.",
  [B,S,D],[("set_capacity",B+":876"),("rset_capacity",B+":952"),("operator=",B+":1226"),("uninitialized_move_if_noexcept",D+":460"),("space-optimized set_capacity",S+":225"),("space-optimized operator=",S+":563")],
  ["content and capacity before and after the exception"])
p("C12","Elements are moved when that is safe, copied otherwise, as documented",
  "Capacity changes, linearize, rotate, single-item insert/rinsert and erase/rerase relocate elements with non-throwing moves by moving only, never copying them, so move-only types work; rvalue pushes and inserts move the argument and never copy it. Copyable elements whose move may throw are relocated by copying, so an exception never leaves a moved-from element among the contents of the container; an lvalue argument is never modified.",
  ["histories","inputs","fault_sequences"],
  "All reachable layouts up to the bound times these operations for nothrow-movable, throwing-movable, copy-only and move-only element types, with faults at each point.",
  "Tests check single cases with move-only types; which elements are moved or copied depends on the layout.",
  [B,D],[("move_if_noexcept in linearize/insert/erase/rotate",B+":671"),("push_*_impl static_cast<ValT>",B+":1425"),("uninitialized_move_if_noexcept",D+":460")],
  ["counts of copies/moves per operation; moved-from marks on elements"])
p("C13","Iterators and references survive exactly as documented",
  "After every operation, iterators and references that the documentation does not declare invalidated still designate the same element at its new position, and still support dereference and arithmetic: e.g. pushes spare all but the overwritten element, pops all but the removed one, insert those before the position, rinsert those from the position on, erase those before and rerase those behind the erased range, and rotate of a full container and a linearize of linear content spare all. swap leaves references to elements valid.",
  ["histories","inputs"],
  "All reachable layouts up to the bound times all operations and arguments times every iterator position held before the call.",
  "Tests hold a few iterators across a few operations.",
  [B,D],[("insert_item/rinsert_impl",B+":2757"),("erase/rerase",B+":2113"),("rotate of a full buffer",B+":743"),("iterator as (buffer, slot)",D+":199")],
  ["dereference and position of saved iterators, addresses of elements"])
p("C14","Debug support reports uses of invalid iterators and broken preconditions",
  "With debug support enabled, an iterator that no longer designates a live element of its container (overwritten, removed, or its container destroyed or swapped) is reported by an assertion when it is dereferenced, moved, compared with a valid iterator or passed to an operation, and so are singular iterators, iterators of another container, dereferencing or advancing end(), moving outside [begin(),end()], front/back/pop on an empty container, out-of-range indices and reversed ranges. An iterator the documentation does not declare invalidated is never reported.",
  ["histories","inputs"],
  "All reachable layouts up to the bound times all operations times all iterators held before, then every use of each of them.",
  "The debug tests check selected invalidations in one layout each.",
  [G,D,B],[("debug_iterator_registry",G+":123"),("is_valid",G+":226"),("assertions in iterator",D+":250"),("invalidation in replace/destroy_item",B+":2414")],
  ["boost::assertion_failed handler, iterator is_valid"])
p("C15","Debug support changes nothing for correct programs",
  "A correct program behaves identically with and without debug support: same contents, sizes, return values, exceptions and element lifetimes, and no assertion fires. Iterators may be copied, assigned, destroyed or outlive the container in any order without affecting other iterators or the container.",
  ["histories","configurations","inputs"],
  "All reachable layouts up to the bound times the full operation alphabet in the debug configuration, plus all short histories of iterator creation, copying, assignment and destruction around container events.",
  "The suite runs mostly in one configuration and never compares the two on the same history.",
  [G,B,S,D],[("intrusive iterator list",G+":123"),("debug-only branches",B+":690"),("erase_begin/erase_end debug branch",B+":2277"),("check_low/high_capacity debug branch",S+":1553")],
  ["all results, and assertion handler silence"])
p("C16","Storage is one fixed block of exactly capacity() elements",
  "A circular_buffer owns exactly one block of capacity() elements (none when 0), all elements live inside it in circular order, and only construction, assignment, copying, destruction and actual changes of capacity allocate or release memory: pushes, pops, inserts and erases with any arguments, clear, rotate, linearize, swap, moves and all observers never do. Elements not involved in an operation are never relocated: a push or pop leaves all other elements at their addresses.",
  ["histories","inputs"],
  "All reachable layouts up to the bound times the full alphabet, with every allocator call recorded.",
  "Tests do not observe allocations per operation.",
  [B],[("allocate/deallocate",B+":2388"),("set_capacity early return",B+":877"),("rset_capacity",B+":952"),("assign_n same-capacity path",B+":2728"),("move/swap",B+":1249")],
  ["allocator calls per operation; element addresses"])
p("C17","The space-optimized container is observably a circular_buffer",
  "For every history of operations, a circular_buffer_space_optimized and a circular_buffer with the same capacity return the same results and hold the same content, size, capacity, fullness and free space, whatever the minimum capacity and however memory was grown or shrunk in between. Only memory use and iterator invalidation may differ.",
  ["histories","inputs"],
  "All reachable states (capacity, minimum, allocated size, offset, size) up to the bound times the common operation alphabet with all arguments, run in lockstep on both containers.",
  "Tests duplicate some cases for the adaptor, always from a few allocated sizes.",
  [S],[("check_low_capacity",S+":1543"),("check_high_capacity",S+":1559"),("position re-mapping after reallocation",S+":985"),("full/reserve from controller",S+":153")],
  ["lockstep comparison of both containers"])
p("C18","Memory of the space-optimized container follows its content",
  "The space-optimized container always has size <= allocated <= capacity elements of memory and, once allocated memory has reached the minimum capacity (copies may start at their size), never less than it; after any removal it holds at most max(minimum capacity, 3*size+2). Constructors, assign and copies allocate the documented amounts, filling it with n pushes takes at most logarithmically many allocations, and alternating push and pop at a size of at least 1 does not reallocate every time.",
  ["histories","inputs"],
  "All reachable (capacity, minimum, allocated, offset, size) states up to the bound times the operation alphabet; a larger bound with integer elements and offset-free states for the growth policy.",
  "Tests check internal capacity after a few chosen calls.",
  [S],[("ensure_reserve",S+":1534"),("check_low_capacity",S+":1543"),("check_high_capacity",S+":1559"),("adjust_min_capacity",S+":1526"),("init_capacity/reduce_capacity",S+":1576")],
  ["block size seen by the allocator"])
p("C19","Operations stay within their documented complexity",
  "The number of element constructions, assignments and destructions of each operation is within a small constant factor of the documented bound in every layout: constant for push, pop, swap, moves, element access and rotation of a full container; linear in the distance from the position to the end for insert/erase and to the beginning for rinsert/rerase; linear in min(distance) for other rotations; none for linearize of linear content and for scalar clear, erase_begin and erase_end. No operation performs more than a constant multiple of capacity such steps.",
  ["histories","inputs"],
  "Every start offset and several fill levels of a larger capacity (and all layouts of small ones) times all operations and positions; costs counted exactly per call.",
  "Tests do not count element operations.",
  [B],[("insert_item vs rinsert_impl",B+":2757"),("erase vs rerase",B+":2113"),("rotate",B+":740"),("linearize",B+":650"),("erase_begin/erase_end scalar paths",B+":2972")],
  ["element operation counters"])
p("C20","Thread safety: distinct containers and concurrent const access",
  "Threads working on distinct containers do not influence each other, and any number of threads may concurrently read one container through its const interface and its iterators: each observes the same unmodified state, since const access neither writes to the container nor to any shared state. A container guarded by a mutex and condition variables (the documented bounded buffer) delivers every item exactly once, in order per producer, and never deadlocks, under every interleaving.",
  ["schedules"],
  "All interleavings up to a preemption bound of 2-3 threads with 1-4 operations each, with a scheduling point at every access to shared memory and every synchronization operation; every operation in all layouts with every memory access recorded and attributed to its owner.",
  "The suite is single-threaded.",
  [B,D],[("const observers",B+":386"),("const iterators",D+":199"),("absence of shared or static state",B+":185")],
  ["results per interleaving; instrumented memory accesses"])
p("C21","Extreme sizes and indices are rejected or clamped without damage",
  "max_size() is the largest size the allocator and difference_type support. Requests beyond max_size() fail with std::length_error (std::bad_alloc or a similar allocation error is also acceptable for requests the allocator refuses) before anything changes, element counts far above the capacity are clamped as documented without overflow, looping or touching memory outside the storage, and at() throws std::out_of_range for every index >= size() up to the largest representable one. The content is unchanged and the container usable afterwards.",
  ["inputs","histories"],
  "All small layouts times a set of boundary values (0, 1, size+-1, capacity+-1, powers of two, max_size()+-1, half and full range of size_type) for every size, count and index parameter.",
  "Tests use small values; arithmetic overflow needs the extremes of the range in combination with particular layouts.",
  [B,S],[("allocate",B+":2388"),("check_position",B+":2342"),("count clamping in insert/rinsert",B+":1787"),("growth arithmetic",S+":1543")],
  ["exceptions, content, capacity afterwards"])
p("C22","All memory and element lifetimes go through the supplied allocator",
  "The container obtains and releases memory and constructs and destroys its elements only through its allocator (from C++11 on through the allocator's own construct/destroy when it has them), starting from a copy of the allocator it was given or its source's; get_allocator() reports it. Copies use the source's allocator, moves and swaps carry the allocator along with its memory, and no memory is ever released to an allocator it was not obtained from; scalar elements may skip destruction.",
  ["histories","configurations","inputs"],
  "All reachable layouts up to the bound times the full alphabet with stateful, unequal allocators on the operands, with and without construct/destroy members, and minimal and C++03-style allocators.",
  "Tests use the standard allocator and a few custom ones in single calls.",
  [B,D],[("empty_value<Alloc>",B+":79"),("allocator_construct/destroy",B+":2430"),("swap_allocator",B+":2636"),("move assignment",B+":1249"),("copy construction",B+":1097")],
  ["allocator instances' own records"])
p("C23","Behaviour is the same in every supported language mode and build",
  "The same history of operations produces the same results, contents, exceptions, element operation counts and allocations whatever the C++ standard selected (C++03 to C++20), the compiler, the optimization level and whether exceptions (with a user-supplied boost::throw_exception) or run-time type information are enabled, except where a language mode lacks move semantics. No such build exhibits undefined behaviour detectable by the address or undefined-behaviour sanitizers.",
  ["configurations","histories"],
  "All reachable layouts up to the bound times the full alphabet, executed in each build configuration; the complete observation logs are compared.",
  "The suite runs a fixed list of cases per standard and never compares configurations with each other.",
  [B,D,S,H],[("BOOST_NO_CXX11_RVALUE_REFERENCES branches",B+":1117"),("iterator assignment",D+":245"),("move emulation",B+":179")],
  ["digest of the observation log per configuration"])
p("C24","Self-referential arguments to pushes are taken by value",
  "Pushing a reference to an element of the same container (push_back(c.front()), push_front(c.back()), any element) adds the value that element had before the call, in every state of either container, including full containers where an element is overwritten and states where memory is reallocated.",
  ["histories","inputs"],
  "All reachable layouts up to the bound times every element index as the argument of push_back/push_front.",
  "No test passes an element of the container itself; failure depends on the layout and on whether the call reallocates.",
  [B,S],[("push_back_impl/push_front_impl",B+":1421"),("reallocation before use of the argument",S+":779")],
  ["content after the call"])
p("C25","Works with fancy pointers and relocatable memory",
  "With an allocator whose pointer type is not a raw pointer (such as the offset pointers of Boost.Interprocess shared memory), every member function of both containers compiles and behaves exactly as with raw pointers, and the state of a container consists of such pointers, sizes and the allocator only: when the memory holding the container and its storage is mapped at another address, content, capacity, iterators obtained afterwards and all later operations are unaffected, with the debug support disabled as documented.",
  ["histories","configurations","schedules"],
  "All reachable layouts up to the bound times the full alphabet with offset pointers; after every operation the container and its storage continue at another address and the previous addresses become inaccessible.",
  "One test uses Boost.Interprocess with a few pushes in one mapping; no test relocates the memory or instantiates most members.",
  [B,D,S],[("pointer types taken from the allocator",B+":130"),("rotate",B+":740"),("address of storage passed to construct/destroy",B+":2430"),("iterator position",D+":199")],
  ["all observers after every operation in the other mapping; compilation of every member"])
p("C26","Debug support makes unused storage recognizable",
  "With the debug support enabled, every byte of the storage that holds no element (never used, or left by a removed, moved-away or overwritten element) has the value 0xcc after every operation that completes, in both containers, and bytes of live elements are never disturbed by that filling.",
  ["histories","configurations"],
  "All reachable layouts up to the bound times the full alphabet; after every transition each byte of each allocated block is inspected.",
  "The suite checks one freshly constructed buffer; which slots are left behind depends on the layout and on the operation's path (shifting, relocation, partial destruction).",
  [B,G],[("do_fill_uninitialized_memory",G+":30"),("fill in allocate",B+":2388"),("fill in destroy_item",B+":2430")],
  ["bytes of the allocated blocks"])
p("C27","Standard algorithms work on the containers' ranges",
  "Iterators, const iterators and reverse iterators of both containers are random access iterators in full (also by the C++20 concepts): every standard algorithm applied to any sub-range, including those that permute, overlap or write through the range, gives the same result, returned position and content as on a vector with the same elements, never changes size, capacity or the elements' places by itself, and combines with members (erase-remove) as usual.",
  ["inputs","histories"],
  "All layouts up to the capacity bound, all words over a small alphabet, all sub-ranges and middles, about fifty algorithms, three element kinds, with and without the debug support.",
  "The suite runs a few algorithms (sort, find, copy) on one buffer each; errors in iterator stepping across the wrap-around show only for particular sub-ranges and layouts.",
  [D,B],[("iterator",D+":199"),("operator+=/-= and difference",D+":300"),("begin/end/rbegin/rend",B+":224")],
  ["results, positions, contents and addresses"])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
