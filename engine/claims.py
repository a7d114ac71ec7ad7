"""What is claimed per property: technique and level note."""
AI = 'path-sensitive abstract interpretation of the IR over value-numbered terms, modular by function contracts'
TB = ' Undecided obligations are listed in the evidence and raise no alarm.'
CLAIMS = {
    'C01': (AI, 'Every path of every operation is shown to return a term denoting the operation (induction over the recursion); assumes the node and memo tables behave as their contracts, which C03/C04 check.' + TB),
    'C02': (AI, 'Every node creation on every path is shown to be labelled above its successors and stored in the table of its label.' + TB),
    'C03': (AI + '; hashed-array versions', 'Every path of the table lookup scans the whole probe sequence of the same hash before it inserts, keeps the table findable while growing, and returns a stored node with exactly the requested label and successors.' + TB),
    'C24': (AI + '; effect ordering', 'No path changes the table, its counters or a node before the last operation that can fail; a full table is never searched.' + TB),
    'C04': (AI, 'Every memo insertion denotes the operation its key stands for, on every path.' + TB),
    'C05': (AI + '; reference balance as a typestate', 'On every path the change of each reference counter equals the change of the number of references.' + TB),
    'C06': (AI + '; loop summaries', 'Every path of the collector frees only nodes of reference count zero, unlinks them, purges every memo entry that mentions one and keeps the rest findable.' + TB),
    'C18': (AI + '; page ownership as a typestate', 'Every page pool hands out an empty page of the size the table masks with and takes it back, on every path of every size class.' + TB),
    'C19': (AI + '; free list as a typestate', 'Every path of allocation and release keeps the free list and the page cursor disjoint from nodes in use and counts exactly.' + TB),
    'C20': ('query over all variables of static storage duration and their uses', 'Every variable of static storage duration of the library is constant, thread local, or never written after initialisation; operations reach other objects only through the manager of their operands (abstract interpretation).' + TB),
    'C21': ('interprocedural effect analysis of assertion conditions (mod sets over pointer provenance)', 'No instruction that belongs to an assertion writes memory that exists outside the assertion, neither directly nor through a callee.' + TB),
    'C22': ('effect query over the call graph', 'No function of the library refers to a standard stream object or calls an output or process-ending function.' + TB),
    'C25': (AI + '; type traits; member order', 'Copying is ruled out by type traits, teardown order by member order, release of every node and page by path analysis.' + TB),
    'C28': ('query over declarations and definitions', 'Every function declared in a class of the library has a definition in some translation unit or header, and no call is unresolved.' + TB),
    'C08': (AI + '; nullness', 'No path dereferences null or follows an arc of a terminal.' + TB),
    'C23': (AI + '; call-graph ranking', 'Every recursive call is on strictly smaller arguments; branching recursion is memoised.' + TB),
    'C26': (AI, 'Every path of the limited conjunction returns null or the exact result.' + TB),
    'C07': (AI + '; mark typestate over the recursion', 'Every traversal step marks, lists and recurses as required on every path; the induction over the diagram is by contract.' + TB),
    'C27': (AI, 'The decision at each node is checked by enumeration of the arc kinds on every path.' + TB),
    'C29': (AI + '; definite initialisation per bit field', 'Both constants are fully initialised with labels that no variable can have; predicates agree with them.' + TB),
    'C14': (AI + '; truth tables over the kinds and order of the operands', 'Every path of the product construction is judged for every kind and order of its operands; every path of the relocation restores the invariants of the collection, also when the product is given up.' + TB),
    'C15': (AI + '; comparison of template instantiations', 'The construction is analysed for three operands (thorough: four), the other instantiations are compared with it structurally; the dispatch is analysed for every number of operands.' + TB),
    'C13': (AI + '; loop invariants over the flat storage', 'Every iteration of storing and of exporting is shown to place, label and connect exactly its node, for any number of nodes and any diagrams stored before; list order by the contract of the traversal (C07).' + TB),
    'C16': (AI + '; loop invariants over the flat storage', 'Every iteration of removal and renaming is judged for any number of diagrams and instructions: what is copied, by how much arcs move, which diagrams are left out (strictly increasing list).' + TB),
    'C17': (AI + '; loop invariants over the flat storage', 'Every iteration of the copy, of marking, of redirecting to equal instructions and of compaction is judged for any well-formed stored diagram and any literals; literals of variables a path skips are a known finding.' + TB),
    'C30': (AI + '; loop invariants over the flat storage; values standing for unknown arcs read off their writers', 'Every path of the functions that open, extend, connect and close a diagram is judged for any collection and any diagram under construction.' + TB),
    'C31': (AI + '; loop invariants over the flat storage', 'Every path of every reading function is judged for any well-formed stored diagram, both orders of its constants and every kind of node.' + TB),
    'C32': (AI + '; effect summary of the map of depths', 'Every path of the three recording functions is judged for any node and any recorded depths of its successors; the whole table follows by induction over the order of recording.' + TB),
    'C11': (AI + '; induction along the path', 'Every path of one step of the evaluation is judged against the assignment, for nodes and for stored instructions; the induction over the diagram is by contract of the recursion or by the loop summary.' + TB),
    'C09': (AI + '; partition of a symbolic range, truth tables over its parts', 'For a range of any length every path is shown to split it into parts that cover every operand, each part shorter and long enough; induction over the length.' + TB),
    'C10': (AI + '; partition of a symbolic range, counting classes of its parts', 'For a range of any length and bounds up to 4 (thorough: 8), every path is shown to combine the parts so that exactly the right numbers of true operands satisfy the constraint; larger bounds repeat the same loops.' + TB),
    'C12': (AI + '; loop invariants of the map of nodes, bounds by monotone accumulators', 'Every iteration over the nodes is shown to enter exactly the image of its node, for both ways of giving the map; every label used is below the number of variables; the result is the image of the root.' + TB),
}
NOT_APPLICABLE = {}
