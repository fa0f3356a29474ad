import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A fill history adds up to the row-by-row sum of documented bin contributions",
"After any sequence of fills, the counts, weighted errors and profile means a histogram reports in every bin equal what is obtained by taking every row ever filled on its own, evaluating the axis, weight, filter and named-definition expressions on that row, and adding its weight (1 if none; 0 if the filter fails or the weight is NaN) to the single bin per axis that the documented edges, open/closed sides, underflow, overflow, NaN-flow, integer, boolean and category rules assign. A row outside an axis that has no flow bin for it contributes nothing anywhere. The labels an axis gives its bins are those edges and categories. How the rows are cut into batches, in which container, order or (wide enough) numeric type the columns are delivered, and whether batches are empty makes no difference.",
["histories","inputs","programs"],
"every histogram made of groupby, groupbin, bin, intbin, split, cut and profile axes in any combination and with any flow/closedness options, every weight/filter/definition expression over the supported operators, every row of data (edge values, infinities, NaN, huge values included) and every division of the rows into fill calls and delivery forms",
"Tests fill fixed tiny arrays, mostly once, with one or two axes at a time; they never combine flow options with profiles, weights and categories, never spread one data set over many differently shaped fill calls, and compare with hand-written numbers only.",
["histbook/hist.py","histbook/fill.py","histbook/instr.py","histbook/calc/__init__.py","histbook/axis.py","histbook/expr.py"],
[("fill planning and execution","histbook/fill.py Fillable.fields/_fill; histbook/instr.py"),("binning functions","histbook/calc/__init__.py"),("accumulation into blocks and categories","histbook/hist.py Hist._postfill")],
[("bin content","accumulated sums of weight, weight squared, weighted profile values per bin")],
["Hist.table","Hist.__getitem__","Hist.groupkeys"])

p("C02","Merging partial histograms gives the single-pass result in any order",
"If a data set is divided among any number of workers that each fill their own empty copy of a histogram or book, and the partial results (sent as pickles, JSON text or live objects, arriving in any order) are added together in any order and any nesting, with + or +=, the total equals the one obtained by filling everything in a single pass, and contains every worker's data exactly once. Scaling by a number multiplies every accumulated sum (so n times a histogram equals merging n copies of it), distributes over the merge and leaves a never-filled histogram empty. Grouping the parts under a label keeps each part recoverable under its own label, and summing over the label gives the merged total.",
["schedules","histories","fault_sequences","inputs"],
"every assignment of rows to workers (including workers that get none), every arrival order, duplication, loss and re-execution of partial results as seen by a driver that keeps one result per task, every merge tree",
"Tests add two or three hand-made histograms once, in one order; no test merges never-filled partials, partially overlapping categories, nested books or results that crossed a serialisation boundary, and no test varies the merge order.",
["histbook/hist.py","histbook/book.py"],
[("histogram addition, in-place addition, scaling","histbook/hist.py Hist.__add__/__iadd__/__mul__/__imul__"),("grouping","histbook/hist.py Hist.group/togroup; histbook/book.py GenericBook.group"),("book addition","histbook/book.py GenericBook.__add__/__iadd__/__mul__/__imul__")],
None,["content of the merged histograms"])

p("C03","A fill that fails changes nothing and can be retried",
"If a fill from arrays or columns raises for any reason in its input (a missing column, columns of different length, a column read that errors, values a calculation cannot process, an allocation failure or an interrupt while columns are read or expressions computed), then every histogram involved, including all histograms of a book, reports exactly the same content as before the call. Retrying the same fill with good input then has exactly the effect of that one fill, as if the failure never happened.",
["fault_sequences","crash_points","histories"],
"every point of reading the inputs or computing an expression at which a fill can fail, every kind of failure, every earlier and later operation, for single histograms and for books with any nesting",
"Tests never make a fill fail; the failure points are spread over every column access and every array operation, and the corruption only shows after a later, successful fill.",
["histbook/fill.py","histbook/hist.py","histbook/book.py"],
[("two-phase fill: evaluate everything, then accumulate","histbook/fill.py Fillable._fill; histbook/hist.py Hist._postfill; histbook/book.py Book.fill")],
None,["content of all histograms after the failed and after the retried call"])

p("C04","Saved and restored histograms are identical and resume seamlessly",
"A histogram or book written with pickle, as JSON (as objects, or as text if its categories are strings) or deep-copied, and read back, equals the original in axes, weight, filter, definitions, attachments, names, order, nesting, book types and bin content, at any moment of its life. From then on the restored object and the original react identically to the same operations, so that a job that crashes and resumes from its last complete checkpoint and replays the batches after it ends with the same result as an uninterrupted one. Saving never changes the saved object.",
["crash_points","histories","fault_sequences","inputs"],
"every object state (never filled, filled, merged, scaled, derived), every format and chain of formats, every crash point in a fill/checkpoint loop with torn or lost checkpoint writes",
"Tests round-trip small freshly made objects once and compare equality; none keeps filling the restored object, restores a filled nested book, chains formats or crashes between checkpoints.",
["histbook/hist.py","histbook/book.py","histbook/axis.py"],
[("histogram pickling and JSON","histbook/hist.py Hist.__getstate__/__setstate__/tojson/fromjson"),("book JSON and pickling","histbook/book.py GenericBook.tojson/fromjson/fromdicts"),("axis packing","histbook/axis.py _pack/_unpack/tojson/fromjson")],
None,["restored object: equality, JSON form, content after further fills"])

p("C05","Operations affect only the object they are applied to",
"Filling, clearing, scaling in place, adding in place, attaching metadata to, or deriving from a histogram or book changes the observable content and metadata of that object only (and of the books that hold it): copies, copy-on-fill copies, cleared copies, sums, products, selections, projections, rebinnings, groupings and serialised images made earlier or later keep exactly what they had, and the sources they came from keep theirs. Derived objects are full histograms: they can themselves be filled, merged and saved without touching their sources. Reading a histogram or book (tables, fractions, JSON, axes, fields, keys, comparison, printing) never changes it.",
["histories","programs"],
"every sequence of creating, deriving, reading and mutating operations over a growing population of histograms and books",
"Aliasing only shows when a particular derivation is followed by a particular mutation and then the other object is read; tests check each operation's result once and throw the objects away.",
["histbook/hist.py","histbook/book.py","histbook/proj.py","histbook/axis.py"],
[("copying and copy-on-fill","histbook/hist.py Hist.copy/copyonfill/_copycontent; histbook/book.py SamplesBook"),("operators","histbook/hist.py __add__/__iadd__/__mul__/__imul__"),("derivations","histbook/proj.py select/project/drop/rebin/rebinby")],
None,["content, axes and attachments of every live object after every operation"])

p("C06","Filling a book equals filling each of its histograms alone",
"At any point of any history of adding, replacing, removing and nesting histograms and books (through the book itself, through a path, or through a nested book's own handle), filling a book or a fillable view of a book has on each histogram it contains exactly the effect that filling that histogram alone with the same data has, and no effect on histograms it does not contain. The list of required fields a book reports is the union of what its current histograms require.",
["histories","programs","inputs"],
"every history of structural edits, fills and views over nested books of every kind, every set of histograms with shared, overlapping or disjoint expressions",
"The shared evaluation plan is cached across edits; tests fill a book right after building it and never edit and refill, and compare only two or three expressions.",
["histbook/book.py","histbook/fill.py","histbook/instr.py"],
[("cached evaluation plan and its invalidation","histbook/book.py GenericBook._changed, Book._streamline; histbook/fill.py Fillable.fields"),("views","histbook/book.py ViewableBook.view")],
[("evaluation plan","cached instructions shared by all histograms of a book")],
["content of every histogram, Book.fields"])

p("C07","Results do not depend on internal evaluation or hash order",
"Two executions of the same program on the same data give bit-identical bin contents, the same required fields, the same saved form and the same equality answers, whatever order the interpreter's hash-based collections happen to iterate in (hash seed, process, interpreter) and in whatever order columns are supplied. The plan chosen for evaluating shared expressions never changes which values reach which histogram.",
["schedules","configurations","programs"],
"every iteration order of every unordered collection used while planning and filling, for every program and data set",
"A test run sees one hash seed and one iteration order (on this interpreter always insertion order); an order-dependent plan shows only under another order.",
["histbook/instr.py","histbook/fill.py","histbook/book.py","histbook/hist.py"],
[("dependency graph walk over sets","histbook/instr.py walkdown/sources/instructions"),("goal sets","histbook/hist.py Hist._goals; histbook/book.py Book._goals")],
None,["content, fields, JSON of all histograms"])

p("C08","Threads working on their own histograms never disturb each other",
"Any number of threads that each build, fill, copy, merge and read only histograms and books of their own, even when these were made from the same axis objects, the same definitions, copies of a common template or sums sharing an operand, obtain exactly the results they would obtain running alone, under every interleaving. A thread that dies with an exception at any point disturbs no other thread.",
["schedules","fault_sequences","programs"],
"every preemption point inside the library, every set of per-thread programs, every thread death",
"No test uses threads; the interleavings inside planning and filling are chosen by the operating system and practically never hit the narrow windows.",
["histbook/hist.py","histbook/fill.py","histbook/instr.py","histbook/axis.py","histbook/expr.py"],
[("lazily built plans on objects reachable from several histograms","histbook/fill.py Fillable.fields; histbook/hist.py Hist.__add__"),("module-level state","histbook/expr.py; histbook/calc/__init__.py")],
None,["per-thread results compared with the same program run alone"])

p("C09","Filling from a Spark DataFrame equals filling from arrays, failures surface",
"Filling a histogram or a book from a Spark DataFrame adds to every histogram exactly what filling it from the same rows as arrays adds, for every axis kind, flow option, weight, filter and profile the Spark path supports, whatever the partitioning of the rows, the order of the returned groups and the interleaving of the book's concurrent jobs. If a Spark job fails, the fill raises; it never returns normally with data missing, and every histogram whose job failed keeps its previous content.",
["schedules","fault_sequences","inputs","programs"],
"every partitioning and row order, every interleaving and completion order of the jobs, every job failure, every repeated fill",
"There is no Spark in the test environment; the only Spark tests are skipped, and job threads interleave under the operating system's control.",
["histbook/calc/spark.py","histbook/book.py","histbook/hist.py"],
[("translation to Spark columns and aggregation","histbook/calc/spark.py fillspark/tocolumns"),("one thread per histogram","histbook/book.py Book.fill")],
None,["content of every histogram after the fill, exception raised by the fill"])

p("C10","A book is a consistent mapping from paths to histograms",
"After any history of assignments, deletions, wildcard look-ups, wildcard deletions and failed attempts, a book holds exactly the histograms most recently stored at each path and not removed since, in insertion order, and every way of reading it (look-up by path or wildcard, membership, length, keys, values, items, recursion, iteration, views) agrees on that content. An edit that raises (bad key or value type, path through a histogram, missing path, an entry that breaks the rules of a systematics book) leaves the book exactly as it was.",
["histories","programs","fault_sequences"],
"every sequence of edits and look-ups with nested paths and wildcard patterns over every kind of book",
"Tests look up a handful of literal paths in one fixed book; deletion by wildcard, failed edits and their aftermath are not exercised.",
["histbook/book.py"],
[("path resolution","histbook/book.py GenericBook._get/_set/_del"),("iteration","histbook/book.py GenericBook._iteritems"),("systematics rules","histbook/book.py SystematicsBook._changed")],
None,["all mapping reads of the book"])

p("C11","Reducing a live histogram equals having filled the reduced one",
"At any moment of a history of fills, merges and scalings, selecting, projecting, dropping profiles, rebinning by edges or by a factor, and computing the fraction passing a cut give exactly the histogram (or table) that would have resulted from the same history on a histogram declared with the reduced axes from the start, with a selection's condition applied to the data (entries that an axis without the flow bin for them never counted stay uncounted). Reductions commute with merging and with further fills. The totals are conserved: projecting and rebinning an axis that has all its flow bins lose no entry.",
["histories","programs","inputs"],
"every histogram shape, every reduction or chain of reductions, taken at every moment of every fill/merge history, including before the first fill",
"Tests reduce one freshly filled histogram at a time, mostly with two keys or default flow bins, and compare with literals; combinations of reductions with categories, profiles, weights, missing flow bins and continued filling are not covered.",
["histbook/proj.py","histbook/axis.py"],
[("select, project, drop, rebin, rebinby, fraction","histbook/proj.py Projectable"),("axis reductions","histbook/axis.py _select/_rebinsplit/_rebinfactor")],
None,["content and axes of the reduced histogram"])

p("C16","A histogram or book nobody changes can be read by many threads at once",
"While no one changes a histogram or book, any number of threads may read it (tables, fractions, fields, axes, JSON, pickles, comparison, printing, look-ups, views) and derive from it (copies, copy-on-fill copies, sums, products, selections, projections, rebinnings, groupings, then filled or changed by the thread that made them) at the same time, whatever its past (never looked at, filled, merged, scaled, restored). Each thread obtains, under every interleaving, exactly what it would obtain alone; a thread that dies while reading disturbs no other; and afterwards the object has exactly the content it had and fills as if no one had looked at it.",
["schedules","fault_sequences","programs"],
"every preemption point inside the library, every set of reading programs, every past of the shared object, every thread death",
"No test uses threads; the first look at a book builds its plan lazily, and the window in which two readers meet there is never hit by a test.",
["histbook/fill.py","histbook/book.py","histbook/hist.py","histbook/proj.py","histbook/instr.py","histbook/axis.py"],
[("plans built on the first look at the required fields","histbook/fill.py Fillable.fields; histbook/book.py Book.fields, Book._streamline"),("copy-on-fill marks both sides","histbook/hist.py Hist.copyonfill, Hist._unshare"),("reductions and tables read the content","histbook/proj.py")],
None,["per-thread results compared with the same program run alone; shared objects compared and filled afterwards"])

p("C12","Expression simplification preserves meaning",
"Parsing and simplifying an algebraic expression never changes the values it computes, on any data on which both the written and the simplified form are defined, and two expressions that compare equal compute equal values.",
["inputs","programs"],
"every expression over the supported grammar and every data row",
"Tests compare the printed form of a few dozen expressions.",
["histbook/expr.py"],[("parsing and simplification","histbook/expr.py Expr.parse, PlusMinus, TimesDiv, Relation, Logical")])
p("C13","A plot specification shows exactly the histogram's content",
"The data rows, channels and facets of a generated plot specification represent every selected bin of the histogram with its value and error, each exactly once.",
["inputs","programs"],
"every histogram and every chain of plot channels",
"Tests only check a few chains for structure.",
["histbook/vega.py"],[("Vega-Lite generation","histbook/vega.py PlottingChain, Combination")])
p("C14","Exports to pandas and ROOT carry every bin",
"Exporting a histogram to a pandas table or a ROOT histogram carries over every bin, its label, its value and its error exactly once.",
["inputs","programs"],
"every histogram",
"Tests of the exports need pandas and ROOT and are few.",
["histbook/export.py"],[("export","histbook/export.py Exportable")])
p("C15","Reported confidence intervals follow the named statistical method",
"The error columns of tables and fractions equal the value of the named statistical formula at the requested confidence level.",
["inputs","configurations"],
"every bin content and every supported method and level",
"Tests check a few literals.",
["histbook/proj.py"],[("error columns","histbook/proj.py Projectable.table/_fraction")])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
