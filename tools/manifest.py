#!/usr/bin/env python3
import json
CLAIMED = {
 'C13': 'Proved for every sequence of operations (each operation for every heap); the contracts of container/heap (Init, Push, Pop) are assumed, the heap interface methods it calls are proved.',
 'C16': 'Proved with bit vectors for every state, seed and bound; the library generator behind GoRandom is assumed to be a function of its seed and draws.',
 'C18': 'Proved for every length and every content; float additions and multiplications are uninterpreted operations applied in the order of the definition; math.Sqrt, Floor and Pow are taken as the definition; sort.Slice is assumed to sort.',
 'C02': 'Proved for every vector length (node size at most 2^30 bytes), node number and content, at all type instances, for both distances, all node methods, CopyNode, the constructors and everything that writes nodes through them; addresses are mathematical integers below 2^48 (stated as preconditions).',
 'C14': 'Proved for all vectors and norms; float operations are uninterpreted except for order, sign and NaN rules; math.Sqrt, Max and Min are taken as the definition.',
 'C15': 'Proved for all numbers of nodes and contents; float operations are uninterpreted except for order, sign and NaN rules; math.Sqrt and Pow are taken as the definition, so equality of the extended norms is up to rounding.',
 'C17': 'Proved for all sizes and file contents; the operating system is a ghost file system: contracts of os.Open, File.Stat/Fd/Close, io.ReadFull, syscall.Mmap/Munmap are assumed, and that nobody else changes a file while it is used.',
 'C01': 'Proved for every index state, item number and vector (memory of the index below 2^48 bytes, index numbers below half of what the index type holds, as preconditions); AddItem, GetItem, New, Close, the growth of the memory and all node methods are under contract; multiplying by 1.5 in floating point is assumed to lie between 1 and 2 times.',
 'C19': 'Proved for the builder, New and the constructors it calls, at every type instance; an angular distance is the only one the builder offers.',
 'C06': 'Proved for every index state as Build and Load leave it (built or loaded, items and trees well formed), every query, budget and number of results; order and exact distances for distances that are not NaN; at most 2^40 candidates in total and 2^44 nodes, vectors up to 2^28 elements; container/heap, sort.Slice and sorty are assumed by contract.',
 'C07': 'Proved for an arbitrary item of an index as Build and Load leave it: when the inspection loop ends because nothing is left to inspect, the item is in the result or no closer than the last one; the default budget is part of the contract. Premises as in C06.',
 'C08': 'Proved as step clauses of the search loop for every step (the priority pushed for each child, the queue popped at the top, container/heap assumed by contract, margins that are not NaN) and for Side and Margin of both distances.',
 'C09': 'Proved as frame conditions of every reading function (writes confined to the context and to memory allocated by the call) and as independence of the result from earlier contents of the context.',
 'C03': 'Proved for every index state, random choice and schedule of the workers under the rule that what a lock guards is only touched with it (obligations of C05) and that a finished build is the composition of the finished workers (assumed at Wait); node counts below 2^44, vectors up to 2^28 elements; termination of the recursion is not part of it.',
 'C04': 'Proved for every number of trees and workers from -1 up to 2^39 and every schedule: shares by loop invariants, workers by ghost counters; sync.WaitGroup and runtime.NumCPU are assumed by contract.',
 'C05': 'Proved as ownership obligations: every read or write of what the workers share happens with the lock held or on memory that is the own of the worker; parallel composition at Wait and at taking the locks is the assumed rule of concurrent separation logic.',
 'C10': 'Proved for every saved index and both index allocators: the file is the nodes of the index, what Load recovers is what was saved, with the state a search needs; the operating system is a ghost file system (contracts of os, io and syscall assumed), at most 2^44 nodes.',
 'C11': 'Proved for every state: refused operations leave the state unchanged, a failed Load leaves an empty index that holds nothing, Close releases everything; failures of closing or unmapping what is open are excluded.',
 'C12': 'Proved for all lengths, ranges and inputs, at every type instance, from the SSA of the real functions; sort.Slice and sorty are assumed to sort (that the comparison handed to them is the order of the elements is proved). Pairs with NaN keys only keep the permutation and range part.',
}
NA = {
 'C20': 'a statistical statement about data distributions; no contract of the functions expresses expected recall',
 'C21': 'a statement about pairs of whole executions (bytes of two builds); the contracts describe single executions and leave the random choices and the order of map-free library calls open',
 'C22': 'termination of Build is only almost sure (it depends on the random choices), which partial-correctness contracts cannot express',
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = [dict(property=p['id'], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
  technique='contract-based deductive verification of the real Go code (verification conditions from SSA, discharged by SMT solvers)',
  level='proof', level_note=CLAIMED[p['id']]) for p in props if p['id'] in CLAIMED]
na = [dict(property=p['id'], reason=NA.get(p['id'], 'not claimed yet: the contracts for it are not finished')) for p in props if p['id'] not in CLAIMED]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
  notes='No hooks: the contracts in /verif/contracts are bound to the functions of /repo by name; nothing in /repo is annotated. /repo carries fix: commits only, see KNOWN_FINDINGS.txt.'),
  open('/verif/MANIFEST.json', 'w'), indent=1)
