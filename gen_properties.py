#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
TX="plotline/src/schema/transaction.rs"; TR="plotline/src/schema/trigger.rs"; RS="plotline/src/schema/resource.rs"
SV="plotline/src/schema/ops/save.rs"; DL="plotline/src/schema/ops/delete.rs"; GR="plotline/src/graph/mod.rs"; PX="plotline/src/graph/proxy.rs"
LZ="plotline/src/document/lazy.rs"; GD="plotline/src/schema/guard.rs"; SM="plotline/src/schema/mod.rs"; DR="plotline/src/deref.rs"
RP="plotline-cli/src/repository.rs"; CD="plotline-cli/src/document.rs"; CM="plotline-cli/src/main.rs"
IN="plugins/interval/src/node.rs"; IT="plugins/interval/src/tree.rs"; IL="plugins/interval/src/lib.rs"; ID="plugins/interval/src/date.rs"; IP="plugins/interval/src/plugin.rs"

p("C01","A transaction applies all of its changes or none of them",
 "When the body of a transaction on a schema returns success, the graph afterwards is exactly the graph before with every save and delete the transaction registered applied once, in the order they were registered; the transaction returns the body's own value. When the body returns an error, that error is returned unchanged and the graph is exactly as it was before. A transaction that is prepared but never run changes nothing.",
 ["histories","inputs"],"Every initial graph, every sequence of saves and deletes (including several on one id, deletes of absent ids, many operations) and every outcome, for every history of consecutive transactions on one schema.",
 "The two unit tests run one delete and one save of different ids once; order, repetition, sequences of transactions and larger batches are never exercised.",
 [TX,SM,GR],[("Background::with commits only on Ok",TX),("Background::commit replays the operation list under the write guard",TX)],
 ["return value of the transaction","graph content read through Schema::read after it"],
 state=[("operations","pending saves and deletes in registration order",TX),("graph","the committed graph",SM)])
p("C02","A transaction sees the graph with its own pending changes applied",
 "At every moment inside a transaction, looking up any id (existence check, fetched node, node handle and the handle's successors) gives the answer the graph would give if the changes pending at that moment were applied in order, those of the enclosing transactions before its own; the latest pending change of an id wins and ids without pending changes show the committed graph. The existence check and the fetched node never disagree. Looking things up changes nothing.",
 ["histories","inputs"],"Every interleaving of saves, deletes, nested transactions and lookups, at every nesting level, over every initial graph.",
 "Unit tests look at one delete followed by one save, and at one save seen from one sub-transaction; overwriting, re-saving after delete, shadowing at depth and the fetched value itself are not looked at.",
 [TX,PX],[("Context::get / Context::contains search own operations newest first, then the parent, then the graph",TX)],
 ["Context as Source: get, contains, node()"])
p("C03","Sub-transactions commit into their parent as a unit, or leave no trace",
 "A sub-transaction that succeeds hands its changes to the transaction it was opened from, in order and as if they were made there at that moment; one that fails, or is prepared and dropped, leaves every enclosing transaction and the graph as if it never ran. Pending changes of a sub-transaction are invisible to its parent and to other sub-transactions until it succeeds. Nothing reaches the graph until the outermost transaction succeeds, at any nesting depth.",
 ["histories","inputs"],"Every tree of nested and sibling sub-transactions with every combination of success and failure, opened from any enclosing transaction, with changes made at any level at any time.",
 "Two unit tests: one sub-transaction with one delete that commits, and two open siblings; no failing sub-transaction, no deeper nesting, no parent change during a sub-transaction is tested.",
 [TX],[("Foreground::commit appends to the parent's operations",TX),("Context parent chain",TX)],
 ["lookups in every open context","committed graph"])
p("C04","Transactions from concurrent threads are isolated and serialisable",
 "Whatever the interleaving of threads that read a schema, write to it and run transactions, sub-transactions, saves and deletes on it, the outcome (all values observed and the final graph) equals that of running those accesses one at a time in some order. No reader ever sees part of a transaction or a change of a failed one, no transaction that reads and then writes loses another's update, and no combination of them deadlocks.",
 ["schedules"],"Every interleaving of two and three threads each performing reads, successful and failing transactions, sub-transactions and operations on overlapping ids.",
 "No existing test uses a second thread; a test run samples one interleaving anyway.",
 [TX,GD,SM],[("the graph's write lock is held from the first access of a transaction until its commit",TX),("SchemaReadGuard / SchemaWriteGuard",GD)],
 ["values observed by each thread","final graph","termination of every thread"],
 state=[("graph lock","readers-writer lock around the graph",SM)])
p("C05","A panic inside a transaction discards that transaction and nothing else",
 "If the code run by a transaction (its body, a nested body, a trigger or an access to the target) panics at any point, the panic reaches the caller, the graph is exactly as before the outermost transaction, and the schema stays fully usable: later reads, transactions and triggers behave as if the panicked one never ran. If only a sub-transaction's panic is caught inside its parent, the parent keeps its own changes, loses those of the sub-transaction and may still succeed.",
 ["crash_points","histories"],"Every point of every transaction program at which user code can panic, caught outside or at any nesting level, followed by every continuation.",
 "No existing test panics inside a transaction.",
 [TX,GD,SV,DL],[("poisoned graph lock is recovered",GD),("poisoned operation lists are recovered by Context::save/delete/get/contains",TX)],
 ["graph after the panic","result of later transactions"])
p("C06","Saving a node runs its triggers and stores the node, or changes nothing",
 "A save first runs the before-save triggers, then registers the node as those triggers left it, then runs the after-save triggers, who see that node. If it returns success the node is part of the transaction (and of the graph once that commits) under its final id, replacing any node of that id, whatever the triggers did to the target; if any trigger fails, its error is returned, no later trigger runs and nothing of the save remains. The delete triggers never run.",
 ["inputs","histories","fault_sequences"],"Every list of before and after triggers (observing, editing the target, editing its id, failing, panicking, saving or deleting other nodes), every initial graph, run at top level or inside a transaction.",
 "No existing test executes a save operation at all.",
 [SV,TR,TX],[("Save::execute",SV),("Target",TX)],["return value","trigger observations","graph and enclosing transaction afterwards"])
p("C07","Deleting a node runs its triggers and removes the node, or changes nothing",
 "Deleting an id that is visible runs the before-delete triggers, registers the removal, then runs the after-delete triggers, all of which see the deleted node as target; on success that id is absent and every other id is untouched. Deleting an id that is not visible reports that there is nothing to do, runs no trigger and changes nothing; if a trigger fails its error is returned, no later trigger runs and the node is still there. The save triggers never run.",
 ["inputs","histories","fault_sequences"],"Every list of before and after triggers, every initial graph and every id (committed, pending, deleted earlier in the transaction, absent), at top level or inside a transaction.",
 "No existing test executes a delete operation at all.",
 [DL,TR,TX],[("Delete::execute",DL)],["return value","trigger observations","graph and enclosing transaction afterwards"])
p("C08","Exactly the triggers scheduled for an event run, in order, once each",
 "Executing the triggers of an event runs precisely those registered for that event, each once, in registration order, regardless of how registrations of different events are interleaved, of the triggers' parameter lists and of whether they were registered directly or by an installed plugin. Execution stops at the first trigger that fails and returns its error; if none fails, or none is registered, it succeeds. Each declared parameter is built afresh from the context of that execution.",
 ["inputs","histories"],"Every registration sequence over several events, every position of a failing trigger, every number of trigger parameters, every order of execution of events.",
 "One unit test registers three triggers on two events and counts calls; order, failure, parameter lists beyond two and plugins are not covered.",
 [TR,SM,"plotline/src/schema/plugin.rs"],[("TriggerSet keyed by the scheduler's type",TR),("TriggerSelect stops at the first error",TR)],["call log of triggers","returned result"])
p("C09","What a trigger changes stands or falls with the operation that fired it",
 "Changes a trigger makes through its context take effect exactly when the operation that fired it succeeds and its enclosing transactions commit: a failing operation discards the changes of triggers that had already succeeded. Before-triggers see the graph without the operation, after-triggers see it applied, and each trigger sees the changes of the triggers before it. The same holds for operations fired from triggers, to any depth.",
 ["histories","inputs"],"Every combination of triggers that look up, save, delete, open sub-transactions and fire further operations, with failure at any of them, tolerated or propagated by the firing trigger.",
 "No existing test has a trigger that touches the graph.",
 [SV,DL,TX,TR],[("Ctx::transaction opens a sub-transaction of the firing context",TX)],["lookups made by triggers","graph afterwards"])
p("C10","A resource is one shared value per type, seen by everyone alike",
 "A schema holds at most one resource per type: registering a type again replaces the value, registering another type does not affect it. Every handle to a resource type, obtained from the schema or as a trigger parameter, reads the latest value written through any handle of that type; a type that was not registered is reported as absent, its accesses run nothing, and it stays absent. Access to one resource is independent of access to the others, and whether the transaction in which it happens succeeds does not matter.",
 ["histories","inputs"],"Every sequence of registrations, reads and writes through handles obtained at any time, for several types (including zero-sized and equally shaped ones), from schema and triggers.",
 "Two unit tests: existence of one type, and one write followed by one read through the same handle.",
 [RS,SM,TX],[("ResourceSet keyed by type, values behind shared locks",RS)],["Res::exists, with, with_mut","trigger parameters"])
p("C11","Joint access to several values happens for all of them or not at all",
 "Accessing a group of two to six different values runs the given function exactly once, with every value in the position it was given, and returns its result; changes made through a mutable joint access are all visible afterwards. If any value of the group is absent or unusable the function is not run, nothing changes and the result is absent. After the access all values are free again, also when the function panics.",
 ["inputs","fault_sequences"],"Every group size, every subset of absent or poisoned values, reading or writing, followed by any further access.",
 "No existing test uses a joint access.",
 [DR,RS,TX],[("impl_with! tuples",DR)],["result of with / with_mut on tuples","later access to each value"])
p("C12","A graph is a map from ids to nodes",
 "After any sequence of insertions and removals a graph contains exactly one node per id that was inserted last and not removed since, namely the node inserted last; insertion and removal return the node they displaced, if any. Iteration yields each contained node exactly once, in ascending id order, and lookups agree with it. Building from a list keeps the last node of each id.",
 ["histories","inputs"],"Every sequence of builds, insertions, removals, lookups and iterations over colliding ids, for several id types.",
 "Unit tests only build graphs with one or two nodes; removal, overwriting, iteration order and colliding ids are not tested.",
 [GR],[("BTreeMap keyed by the node's own id",GR)],["Graph insert/remove/with_node/from_iter/get/contains/iteration"])
p("C13","A node handle is virtual exactly when its node is absent, and navigates",
 "A handle for any id reports itself virtual exactly when its source (graph or transaction) has no such node at that moment; the first look at its node yields the source's node of that moment, if any, and later looks, also through clones made since, yield the same. Its successors are one handle per edge of the node, in edge order, duplicates, self-loops and dangling edges included; a handle whose node is absent has none. Following successors along any path reaches exactly the ids that the edges name.",
 ["inputs","histories"],"Every graph over a few ids with every edge list (including cycles, duplicates, dangling edges), from every start and along every path, on graphs and on transactions with pending changes.",
 "Three unit tests with at most two nodes and one edge each; transactions as sources, duplicates, dangling edges and cloned handles are not tested.",
 [PX,GR,TX],[("NodeProxy::try_deref caches",PX),("NodeProxy::successors",PX)],["NodeProxy: id, is_virtual, try_deref, successors, clone"])
p("C14","Threads sharing a lazy document all get the document",
 "When several threads access the same not yet loaded document at the same time, every one of them gets the document if the repository provides it, all get one and the same loaded copy, and it never changes afterwards. A thread is told the document is absent only if the repository answered so to that very access. No interleaving blocks the threads forever.",
 ["schedules","fault_sequences"],"Every interleaving of two and three threads accessing, re-accessing and cloning a shared lazy document, with every sequence of repository answers.",
 "Lazy documents have no test, and none of the tests is concurrent.",
 [LZ],[("OnceLock cache filled by LazyDocument::try_deref",LZ)],["result and address returned by each access"],
 state=[("document","write-once cache",LZ)])
p("C15","A lazy document loads at most once and then stays what it was",
 "Creating, identifying, listing or cloning a lazy document never loads it. Its first access asks the repository for exactly its own id; once the repository has provided the document, later accesses return that copy without asking again, whatever the repository would answer by then, while an absent answer is not remembered. A document created with content never asks the repository and yields that content; a clone carries over what was loaded and is otherwise independent.",
 ["histories","fault_sequences"],"Every sequence of accesses, clones, drops and repository changes (document added, changed, removed), for documents created by id and by content, alone or in a graph and in transactions.",
 "Lazy documents have no test.",
 [LZ],[("LazyDocument::try_deref, builder, new, clone",LZ)],["repository call log","returned document"])
p("C16","The local repository lists exactly the documents of its directory",
 "For any directory tree, the listing has exactly one entry per visible (neither hidden nor left out by an ignore file in or above the directory, as git knows them) regular file or symbolic link to one whose name ends in a dot followed by the configured extension, taken literally; the entry's id is the file's path relative to the base directory without that ending. Directories and files of other names contribute nothing, and distinct files have distinct ids. Listing loads no document, modifies nothing and does not depend on how the base directory is spelled.",
 ["inputs","configurations"],"Every tree of files and directories over names with several dots, no dots, look-alike endings, blanks, non-ASCII, non-UTF-8 and directory names that look like documents; every extension, including ones with several dots or punctuation.",
 "plotline-cli has no tests.",
 [RP],[("LocalDocumentRepository::all: walk, name filter, stripping of extension and base",RP)],["ids produced by LocalDocumentRepository::all"])
p("C17","Every listed document can be loaded and is its own file's content",
 "For any directory tree and extension, loading a listed id yields the bytes of exactly the file it was listed for, as a document that identifies itself by that same id. Loading an id for which no such file exists reports absence. Loading never yields another file's content and modifies nothing.",
 ["inputs","configurations"],"Every tree, extension and id as above, for every listed id and for ids that are not listed.",
 "plotline-cli has no tests.",
 [RP,CD],[("LocalDocumentRepository::find_by_id",RP)],["LocalDocumentRepository::find_by_id","LazyDocument over the repository"])
p("C18","The command line reports the documents and its failures faithfully",
 "Listing prints every document id of the base directory once, one per line, in ascending order, to standard output, and nothing else there; it succeeds and changes no file. Deleting an id that is not a document, or omitting a required id, fails with a message on standard error and a non-zero exit status and changes no file; deleting an existing id and saving succeed and leave all other documents alone. Options are honoured in any position, and if the listing cannot be written the command fails with an error instead of crashing. What the process finds around it (environment variables, standard input, a standard error that cannot be written) changes none of this.",
 ["inputs","configurations","fault_sequences"],"Every sub-command and alias with every combination and position of options, over several directory trees, with standard output and standard error working, full or closed, and with unusual environment variables.",
 "The command line has no tests.",
 [CD,CM,"plotline-cli/src/lib.rs"],[("DocumentCli::execute",CD),("argument definitions",CM)],["stdout, stderr, exit status of the binary","directory content"])
p("C19","Storage faults make single documents absent, never worse",
 "If files or directories become unreadable, vanish, are replaced or reappear at any time between listing and loading, each affected document is reported absent, or with the content then present, while all other documents are listed and loaded as usual; nothing panics and nothing is modified. A document reported absent because of a fault loads normally once the fault is gone.",
 ["fault_sequences","histories"],"Every sequence of faults and repairs (deleted, replaced by a directory, dangling link, unreadable, base directory missing) placed before, between and after listing and loading, for every document.",
 "plotline-cli has no tests and no test injects a fault.",
 [RP,LZ],[("I/O errors are logged and turned into absence",RP),("an absent answer is not cached",LZ)],["listing","LazyDocument access","find_by_id"])
p("C20","The interval tree finds exactly the intervals that overlap a query",
 "After any sequence of insertions, asking the tree whether anything overlaps a query answers yes exactly when some inserted interval shares at least one point with it, bounds included. Enumerating the overlaps calls back once for every inserted interval that overlaps the query, duplicates as often as they were inserted, and for no other. The insertion order does not matter.",
 ["inputs","histories"],"Every multiset of intervals over a small range of bounds in every insertion order, against every query interval.",
 "The plugin is not part of the tested workspace; its two table tests cover seven hand-picked trees.",
 [IN,IT,IL],[("insert maintains the maximum upper bound of each subtree",IN),("intersects / for_each_intersection prune by it",IN),("IntervalExt::intersects",IL)],["IntervalSearchTree: insert, with_interval, intersects, for_each_intersection"])
p("C21","Deleting from the interval tree removes exactly that interval",
 "Deleting an interval removes exactly one occurrence of it if the tree holds one and changes nothing otherwise; it always terminates. After any mix of insertions and deletions, queries answer as if only the remaining intervals had ever been inserted.",
 ["histories","inputs"],"Every sequence of insertions and deletions over intervals with equal and different bounds, equal bounds but different identity, present and absent ones, followed by every query.",
 "No existing test deletes an interval.",
 [IN,IT],[("IntervalSearchTreeNode::delete and join",IN)],["IntervalSearchTree: delete followed by queries"])
p("C22","Dates are ordered by significance of their components",
 "Comparing two dates of the same format gives a total order that compares components from the most to the least significant (first to last in big-endian, last to first in little-endian dates), is equal exactly for equal dates, and is the same through every comparison operator. A date used as an interval contains exactly itself, so two dates overlap exactly when they are equal.",
 ["inputs"],"Every pair and triple of dates over small component values, for zero to four components and both formats.",
 "Dates have no test.",
 [ID],[("Ord for Date<_, _, LittleEndian> and Date<_, _, BigEndian>",ID)],["comparison operators on dates","interval tree holding dates"],
 hook="a guarded constructor (cfg plotline_mc): dates cannot be constructed outside their module")
p("C23","The interval plugin keeps its index equal to the graph's intervals",
 "On a schema whose graph is empty when the interval plugin is installed, after any history of save and delete operations whose transactions succeed, the plugin's index holds exactly the intervals extracted from the nodes currently in the graph, each once per node it belongs to and with that node's id: deleting a node removes its intervals and no others, saving a node adds its intervals.",
 ["histories"],"Every history of saves, overwrites and deletes, alone, in transactions and sub-transactions, next to other triggers that change what is saved or save and delete further nodes.",
 "The plugin is not part of the workspace and has no test.",
 [IP],[("AfterSave / AfterDelete triggers",IP)],["queries on the index resource"],
 hook="guarded constructor and query (cfg plotline_mc_plugin): the plugin's type, its index's type and its constructor are private")
p("C24","A document saved or deleted by a command stays so for later commands",
 "After a save command succeeded, later commands list the document and loading it yields the saved content; after a delete command succeeded, later commands no longer list it.",
 ["histories","crash_points"],"Every sequence of commands and every crash point in them.",
 "The command line has no tests.",
 [CD,"plotline/src/document/mod.rs"],[("none: the repository abstraction has no write operation",CD)],["directory content","later listings"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
